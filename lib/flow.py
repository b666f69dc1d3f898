"""Value flow of a function in exact arithmetic: every numeric value is a rational function of the
inputs, integers that count or address are constants, and each comparison of symbolic values splits
the analysis on the sign of the compared difference (all signs are explored)."""
import struct
from fractions import Fraction as Fr
from alg import *
from engine import AnalysisError
from ir import where

SIZES = {"i1": 1, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "float": 4, "double": 8, "ptr": 8}
EXACT = {Fr(struct.unpack("f", struct.pack("f", 3.141592653589793 / 180.0))[0]): "deg",
         Fr(struct.unpack("f", struct.pack("f", struct.unpack("f", struct.pack("f", 3.141592653589793))[0] / 180.0))[0]): "deg"}
INV = set(EXACT)


class Dead(Exception):
    """the signs assumed on this branch contradict each other"""


class World:
    """one branch of the case split"""

    def __init__(self, alg, pre):
        self.A, self.pre = alg, pre
        self.at = 0
        self.alts = []
        self.facts = {}
        self.zeros = []
        self.log = []

    def choose(self, n):
        i = self.at
        self.at += 1
        if i < len(self.pre):
            return self.pre[i]
        for k in range(1, n):
            self.alts.append(self.pre[:i] + self.trail(i) + [k])
        self.new.append(0)
        return 0

    def trail(self, i):
        return self.new[: i - len(self.pre)]

    new = None

    def sign_in(self, x, S, tag="f"):
        """is the sign of x in S? splits when the branch does not know"""
        p = self.A.identities(pmul(x.n, x.d) if pconst(x.d) is None else dict(x.n))
        if pconst(x.d) is None:
            # a divisor is not zero
            self.assume(Rat(pmul(x.d, x.d), {ONE: Fr(1)}, self.A), {1})
        if tag == "f" and self.zeros:
            p = reduce(p, self.zeros, self.A)
        c = pconst(p)
        if c is not None:
            return ((c > 0) - (c < 0)) in S
        lead = max(p, key=mrank)
        k = p[lead]
        flip = k < 0
        q = key({m: v / k for m, v in p.items()})
        if flip:
            S = {-s for s in S}
        if tag == "f" and len(p) == 1 and len(lead) == 1 and self.A.kind.get(lead[0][0], ("in",))[0] in ("sqrt", "hypot"):
            self.facts.setdefault((tag, q), {0, 1})
        F = self.facts.get((tag, q), {-1, 0, 1})
        if F <= S:
            return True
        if not (F & S):
            return False
        yes, no = F & S, F - S
        if not self.consistent((tag, q), yes):
            r = False
        elif not self.consistent((tag, q), no):
            r = True
        else:
            r = self.choose(2) == 0
        F = yes if r else no
        self.facts[(tag, q)] = F
        self.log.append("%s %s 0" % (pstr({m: v / k for m, v in p.items()}, self.A)[:80],
                                     {(-1,): "<", (0,): "==", (1,): ">", (-1, 0): "<=", (0, 1): ">=", (-1, 1): "!="}[tuple(sorted(F))]))
        if F == {0}:
            self.zeros.append({m: v / k for m, v in p.items()})
            if pconst(x.d) is None:
                self.zeros.append(self.A.identities(dict(x.n)))
        return r

    def assume(self, x, S, tag="f"):
        """a premise of the operation: the sign of x is in S"""
        p = self.A.identities(pmul(x.n, x.d) if pconst(x.d) is None else dict(x.n))
        lead = max(p, key=mrank)
        k = p[lead]
        p = {m: v / k for m, v in p.items()}
        S = {-s for s in S} if k < 0 else set(S)
        self.facts[(tag, key(p))] = S
        if S == {0}:
            self.zeros.append(p)

    def consistent(self, k, S):
        """can the assumed signs and this one hold together? (linear in the monomials)"""
        facts = dict(self.facts)
        S = S & facts.get(k, {-1, 0, 1})
        if not S:
            return False
        facts[k] = S
        cons = []
        for (tag, q), F in facts.items():
            if tag not in ("f", k[0]):
                continue
            p = dict(q)
            f = tuple(sorted(F))
            neg = {m: -c for m, c in p.items()}
            if f == (0,):
                cons += [(p, False), (neg, False)]
            elif f in ((1,), (0, 1)):
                cons.append((p, f == (1,)))
            elif f in ((-1,), (-1, 0)):
                cons.append((neg, f == (-1,)))
        # only the constraints that share monomials with the new one can contradict it
        seen, rel = set(m for m, _ in k[1] if m), []
        grow = True
        while grow:
            grow = False
            for c in cons:
                if c not in rel and any(m in seen for m in c[0]):
                    rel.append(c)
                    seen |= {m for m in c[0] if m}
                    grow = True
        return fm(rel)

    def equal(self, x, y):
        """do the assumed signs force x = y?"""
        p = self.A.identities(x.diff(y))
        if not p:
            return True
        for tag in {t for t, _ in self.facts}:
            if not self.consistent((tag, key(p)), {-1}) and not self.consistent((tag, key(p)), {1}):
                return True
        return False

    def lt(self, a, b):
        return self.sign_in(a - b, {-1})

    def eq0(self, a, b):
        return self.sign_in(a - b, {0})

    def min(self, a, b):
        return a if self.lt(a, b) else b

    def max(self, a, b):
        return b if self.lt(a, b) else a

    def abs(self, a):
        return -a if self.sign_in(a, {-1}) else a


def tightest(cons):
    """of the constraints on the same combination of monomials only the tightest matters"""
    best = {}
    for p, s in cons:
        ms = sorted(m for m in p if m and p[m])
        if not ms:
            best.setdefault(("const", p.get(ONE, 0), s), (p, s))
            continue
        k = abs(p[ms[0]])
        q = tuple((m, p[m] / k) for m in ms)
        c = (p.get(ONE, 0) / k, not s)
        old = best.get(q)
        if old is None or c < old[2]:
            d = dict(q)
            d[ONE] = c[0]
            best[q] = (d, s, c)
    return [v[:2] for v in best.values()]


def fm(cons, limit=400):
    """is there a value for every monomial with p >= 0 (or > 0 when strict)? by elimination"""
    while True:
        ms = {}
        for p, _ in cons:
            for m in p:
                if m:
                    ms[m] = ms.get(m, 0) + 1
        if not ms:
            break
        m = min(ms, key=lambda x: (ms[x], x))
        pos = [c for c in cons if c[0].get(m, 0) > 0]
        neg = [c for c in cons if c[0].get(m, 0) < 0]
        cons = [c for c in cons if not c[0].get(m, 0)]
        for p, s in pos:
            for q, t in neg:
                cons.append((padd({k: v / p[m] for k, v in p.items()}, {k: v / -q[m] for k, v in q.items()}), s or t))
        cons = tightest(cons)
        if len(cons) > limit:
            return True
    return not any((p.get(ONE, 0) <= 0) if s else (p.get(ONE, 0) < 0) for p, s in cons)


def explore(alg, body, limit=4000, world=None):
    """body(world) on every combination of signs; returns how many branches there were"""
    todo, n = [[]], 0
    while todo:
        w = (world or World)(alg, todo.pop())
        w.new = []
        n += 1
        if n > limit:
            raise AnalysisError("more than %d branches" % limit)
        try:
            body(w)
        except Dead:
            pass
        todo += w.alts
    return n


class Flow:
    def __init__(self, mod, world, calls=None):
        self.mod, self.w, self.A = mod, world, world.A
        self.mem = {}
        self.n = 0
        self.calls = calls or {}
        self.trap = None
        self.wrote = []
        self.insts = 0

    # ---- memory
    def obj(self, name, cells=None):
        self.mem[name] = dict(cells or {})
        return ("p", name, 0)

    def glob(self, name):
        o = "@" + name
        if o not in self.mem:
            g = self.mod.globals.get(name)
            self.mem[o] = {}
            if g is None or not g.get("init"):
                raise AnalysisError("global %s has no initialiser" % name)
            self.init(o, 0, g["init"])
        return o

    def init(self, o, off, c):
        """stores constant c at off, returns the offset after it"""
        if c[0] == "agg":
            for x in c[1]:
                off = self.init(o, off, x)
            return off
        if c[0] == "zero":
            for i in range(0, c[1], 4):
                self.mem[o][off + i] = (4, 0)
            return off + c[1]
        if c[0] == "i":
            n = max(1, int(c[2]) // 8)
            self.mem[o][off] = (n, int(c[1]))
            return off + n
        if c[0] == "f":
            n = SIZES[c[2]]
            self.mem[o][off] = (n, self.const(c))
            return off + n
        if c[0] == "undef":
            return off + self.size(c[1])
        if c[0] == "str":
            for k, x in enumerate(bytes.fromhex(c[1])):
                self.mem[o][off + k] = (1, x)
            return off + len(c[1]) // 2
        raise AnalysisError("initialiser %s" % c[0])

    def size(self, ty):
        if ty in SIZES:
            return SIZES[ty]
        m = vec(ty)
        if m:
            return m[0] * SIZES[m[1]]
        if ty.startswith("{"):
            return sum(self.size(t) for t in split(ty[1:-1]))
        if ty.startswith("["):
            n, t = ty[1:-1].split(" x ", 1)
            return int(n) * self.size(t)
        raise AnalysisError("size of %s" % ty)

    def store(self, p, v, ty, inst=None):
        if p[0] != "p":
            raise AnalysisError("store to %s" % (p,))
        _, o, off = p
        if ty.startswith("{") or ty.startswith("["):
            ts = split(ty[1:-1]) if ty[0] == "{" else [ty[1:-1].split(" x ", 1)[1]] * int(ty[1:].split(" x ")[0])
            for t, x in zip(ts, v or [None] * len(ts)):
                n = self.size(t)
                off = (off + min(n, 8) - 1) // min(n, 8) * min(n, 8) if vec(t) is None and t[0] not in "{[" else off
                self.store(("p", o, off), x, t)
                off += n
            return
        m = vec(ty)
        if m:
            n = SIZES[m[1]]
            for i in range(m[0]):
                self.put(o, off + i * n, n, v[i] if v is not None else None)
            return
        self.put(o, off, SIZES[ty], v)

    def put(self, o, off, n, v):
        if isinstance(v, tuple) and v and v[0] == "cells":
            for k, x in v[1]:
                self.put(o, off, k, x)
                off += k
            return
        M = self.mem[o]
        for k in [k for k in M if k < off + n and k + M[k][0] > off and k != off]:
            del M[k]
        M[off] = (n, v)
        self.wrote.append((o, off))

    def load(self, p, ty):
        if p[0] != "p":
            raise AnalysisError("load from %s" % (p,))
        _, o, off = p
        if ty.startswith("{") or ty.startswith("["):
            ts = split(ty[1:-1]) if ty[0] == "{" else [ty[1:-1].split(" x ", 1)[1]] * int(ty[1:].split(" x ")[0])
            out = []
            for t in ts:
                n = self.size(t)
                if vec(t) is None and t[0] not in "{[":
                    off = (off + n - 1) // n * n
                out.append(self.load(("p", o, off), t))
                off += n
            return out
        m = vec(ty)
        if m:
            n = SIZES[m[1]]
            return [self.get(o, off + i * n, n) for i in range(m[0])]
        return self.get(o, off, SIZES[ty])

    def get(self, o, off, n):
        M = self.mem[o]
        if off in M:
            k, v = M[off]
            if k == n:
                return v
            if k < n:
                out, at = [], off
                while at < off + n and at in M:
                    out.append(M[at])
                    at += M[at][0]
                if at == off + n:
                    if all(isinstance(x, int) and not isinstance(x, bool) for _, x in out):
                        r, sh = 0, 0
                        for k, x in out:
                            r |= (x & ((1 << 8 * k) - 1)) << sh
                            sh += 8 * k
                        return r
                    return ("cells", out)
        return None

    # ---- values
    def const(self, c):
        k = c[0]
        if k == "i":
            w = int(c[2])
            return int(c[1]) & ((1 << w) - 1)
        if k == "f":
            if "nan" in c[1] or "inf" in c[1]:
                return self.A.term(c[1].strip("+"), ())
            f = Fr(float.fromhex(c[1]))
            if f in EXACT:
                return self.A.atom(EXACT[f])
            if f and 1 / f in INV or f and abs(1 / f - Fr(314159265358979, 18000000000000000)) < Fr(1, 10**9):
                return 1 / self.A.atom("deg")
            return self.A.const(f)
        if k == "null":
            return 0
        if k == "undef":
            m = vec(c[1]) if len(c) > 1 else None
            return [None] * m[0] if m else None
        if k == "agg":
            return [self.const(x) for x in c[1]]
        if k == "g":
            return ("p", self.glob(c[1]), c[2])
        if k == "zero":
            return None
        if k == "fn":
            return ("fn", c[1])
        raise AnalysisError("constant %s" % (c,))

    def val(self, env, o):
        if o[0] == "v":
            return env[o[1]]
        return self.const(o)

    def sym(self, v):
        if isinstance(v, Rat):
            return v
        if isinstance(v, (bool, int)):
            return self.A.const(int(v))
        raise AnalysisError("arithmetic on %s" % (v,))

    # ---- execution of one branch
    def run(self, fn, args):
        env = {i: a for i, a in enumerate(args)}
        bl, prev, steps = 0, None, 0
        while True:
            blk = fn.blocks[bl]
            phis = {}
            for i in blk:
                if i["op"] != "phi":
                    break
                for b, o in i["in"]:
                    if b == prev:
                        phis[i["id"]] = self.val(env, o)
            env.update(phis)
            nxt = None
            for i in blk:
                op = i["op"]
                if op == "phi":
                    continue
                steps += 1
                self.insts += 1
                if steps > 20000:
                    raise AnalysisError("a loop of %s does not end" % fn.dem)
                if op == "br":
                    s = i["succ"]
                    if "cond" in i:
                        c = self.val(env, i["cond"])
                        if c is None:
                            raise AnalysisError("branch on an undefined value at %s" % where(i))
                        nxt = s[0] if c & 1 else s[1]
                    else:
                        nxt = s[0]
                elif op == "switch":
                    c = self.val(env, i["cond"])
                    if not isinstance(c, int):
                        raise AnalysisError("switch on %s at %s" % (c, where(i)))
                    nxt = i["default"]
                    for k, b in i["cases"]:
                        if int(k[1]) & ((1 << int(k[2])) - 1) == c:
                            nxt = b
                elif op == "ret":
                    return self.val(env, i["a"][0]) if i["a"] else None
                elif op == "unreachable":
                    self.trap = where(i)
                    return None
                else:
                    env[i["id"]] = self.step(env, i)
                    if self.trap:
                        return None
            prev, bl = bl, nxt

    def step(self, env, i):
        op, ty = i["op"], i["ty"]
        V = lambda o: self.val(env, o)
        if op == "alloca":
            self.n += 1
            return self.obj("%%%d" % self.n)
        if op == "load":
            return self.load(V(i["p"]), ty)
        if op == "store":
            self.store(V(i["p"]), V(i["v"]), i["vty"], i)
            return None
        if op == "getelementptr":
            b = V(i["base"])
            off = i["off"]
            for o, k in i["vars"]:
                x = V(o)
                if not isinstance(x, int):
                    raise AnalysisError("address depends on %s at %s" % (x, where(i)))
                x = x - (1 << 64) if x >> 63 else x
                off += x * k
            if b[0] != "p":
                raise AnalysisError("address of %s at %s" % (b, where(i)))
            return ("p", b[1], b[2] + off)
        if op == "call":
            return self.call(env, i)
        a = [V(o) for o in i["a"]]
        if op == "extractvalue":
            x = a[0]
            for k in i["idx"]:
                x = x[k] if x is not None else None
            return x
        if op == "insertvalue":
            def ins(agg, ix, v, t):
                ts = split(t[1:-1]) if t[0] == "{" else [t[1:-1].split(" x ", 1)[1]] * int(t[1:].split(" x ")[0])
                agg = list(agg) if agg is not None else [None] * len(ts)
                agg[ix[0]] = v if len(ix) == 1 else ins(agg[ix[0]], ix[1:], v, ts[ix[0]])
                return agg
            return ins(a[0], i["idx"], a[1], ty)
        if op == "extractelement":
            return a[0][a[1]] if a[0] is not None else None
        if op == "insertelement":
            v = list(a[0]) if a[0] is not None else [None] * vec(ty)[0]
            v[a[2]] = a[1]
            return v
        if op == "shufflevector":
            n = len(a[0]) if a[0] is not None else len(a[1])
            both = list(a[0] or [None] * n) + list(a[1] or [None] * n)
            return [both[k] if k >= 0 else None for k in i["mask"]]
        if op == "freeze":
            return a[0]
        m = vec(ty)
        if op == "bitcast":
            return self.bitcast(a[0], i["sty"], ty, i)
        if op == "select":
            if isinstance(a[0], list):
                return [x if c & 1 else y for c, x, y in zip(*a)]
            if a[0] is None:
                raise AnalysisError("select on an undefined value at %s" % where(i))
            return a[1] if a[0] & 1 else a[2]
        if m:
            sty = vec(i["sty"])[1] if "sty" in i else None
            if op in ("icmp", "fcmp") or sty is None:
                ety = m[1]
            else:
                ety = m[1]
            return [self.scalar(i, op, ety, [x[k] if x is not None else None for x in a], sty) for k in range(m[0])]
        return self.scalar(i, op, ty, a, i.get("sty"))

    def bitcast(self, v, sty, ty, i):
        if sty == ty:
            return v
        o = self.obj("%bc")
        self.store(o, v, sty)
        r = self.load(o, ty)
        return r

    def scalar(self, i, op, ty, a, sty=None):
        A = self.A
        if op == "fneg":
            return -a[0] if a[0] is not None else None
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            if a[0] is None or a[1] is None:
                return None
            x, y = self.sym(a[0]), self.sym(a[1])
            return x + y if op == "fadd" else x - y if op == "fsub" else x * y if op == "fmul" else x / y
        if op in ("fpext", "fptrunc"):
            return a[0]
        if op in ("sitofp", "uitofp"):
            if isinstance(a[0], int):
                w = 8 * SIZES[sty]
                v = a[0]
                if op == "sitofp" and v >> (w - 1):
                    v -= 1 << w
                return A.const(v)
            return a[0]
        if op in ("fptosi", "fptoui"):
            return A.term("trunc", (a[0],))
        if op == "fcmp":
            return self.fcmp(i["pred"], a[0], a[1], i)
        if op == "icmp":
            return self.icmp(i["pred"], a[0], a[1], i)
        if op in ("trunc", "zext", "sext"):
            return self.icast(op, a[0], sty, ty, i)
        if op in ("ptrtoint", "inttoptr"):
            return a[0]
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            return self.int(op, ty, a, i)
        raise AnalysisError("instruction %s at %s" % (op, where(i)))

    def fcmp(self, pred, x, y, i):
        if x is None or y is None:
            raise AnalysisError("comparison of an undefined value at %s" % where(i))
        p = pred[1:] if pred[0] in "ou" and pred not in ("ord", "uno") else pred
        if p in ("ord", "true"):
            return 1
        if p in ("uno", "false"):
            return 0
        S = {"eq": {0}, "ne": {-1, 1}, "lt": {-1}, "le": {-1, 0}, "gt": {1}, "ge": {0, 1}}[p]
        return int(self.w.sign_in(self.sym(x) - self.sym(y), S))

    def icmp(self, pred, x, y, i):
        if x is None or y is None:
            raise AnalysisError("comparison of an undefined value at %s" % where(i))
        if isinstance(x, tuple) or isinstance(y, tuple):
            if pred in ("eq", "ne") and isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == "p":
                return int((x == y) == (pred == "eq"))
            if pred in ("eq", "ne") and 0 in (x, y) and "p" in (x[0] if isinstance(x, tuple) else "", y[0] if isinstance(y, tuple) else ""):
                return int(pred == "ne")
            if isinstance(x, tuple) and isinstance(y, tuple) and x[:2] == y[:2]:
                x, y = x[2], y[2]
            else:
                raise AnalysisError("comparison of %s and %s at %s" % (x, y, where(i)))
        p = pred[-2:]
        S = {"eq": {0}, "ne": {-1, 1}, "lt": {-1}, "le": {-1, 0}, "gt": {1}, "ge": {0, 1}}[p]
        if isinstance(x, int) and isinstance(y, int):
            if pred[0] == "s":
                w = self.width(i)
                x, y = sx(x, w), sx(y, w)
            return int(((x > y) - (x < y)) in S)
        w = self.width(i)
        if pred[0] == "s":
            x = sx(x, w) if isinstance(x, int) else x
            y = sx(y, w) if isinstance(y, int) else y
        return int(self.w.sign_in(self.sym(x) - self.sym(y), S, {"s": "s", "u": "u"}.get(pred[0], "f") if p not in ("eq", "ne") else "f"))

    def width(self, i):
        return i.get("aty") and 8 * SIZES[i["aty"]] or self.iw

    iw = 32

    def icast(self, op, x, sty, ty, i):
        if x is None:
            return None
        n, k = bits(ty), bits(sty)
        if isinstance(x, int):
            if op == "sext" and x >> (k - 1) & 1:
                x |= ((1 << n) - 1) ^ ((1 << k) - 1)
            return x & ((1 << n) - 1)
        if isinstance(x, tuple) and x[0] == "cells":
            if op == "trunc":
                if x[1][0][0] * 8 == n:
                    return x[1][0][1]
                out, left = [], n // 8
                for s, v in x[1]:
                    if left >= s:
                        out.append((s, v))
                        left -= s
                return ("cells", out)
            if op == "zext":
                return ("cells", x[1] + [((n - k) // 8, 0)])
        if op == "zext" and n == 64 and k == 32 and isinstance(x, Rat):
            return ("cells", [(4, x), (4, 0)])
        raise AnalysisError("%s of %s at %s" % (op, x, where(i)))

    def int(self, op, ty, a, i):
        w = bits(ty)
        M = (1 << w) - 1
        x, y = a
        if x is None or y is None:
            return None
        if isinstance(x, int) and isinstance(y, int):
            if op in ("sdiv", "srem", "ashr"):
                x, y = sx(x, w), (sx(y, w) if op != "ashr" else y)
            if op in ("udiv", "sdiv", "urem", "srem") and y == 0:
                raise AnalysisError("division by zero at %s" % where(i))
            r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "and": lambda: x & y,
                 "or": lambda: x | y, "xor": lambda: x ^ y, "shl": lambda: x << y, "lshr": lambda: x >> y,
                 "ashr": lambda: x >> y, "udiv": lambda: x // y, "urem": lambda: x % y,
                 "sdiv": lambda: int(abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)),
                 "srem": lambda: abs(x) % abs(y) * (-1 if x < 0 else 1)}[op]()
            return r & M
        cells = lambda v: isinstance(v, tuple) and v[0] == "cells"
        if cells(x) and isinstance(y, int):
            if op == "lshr":
                out, n = list(x[1]), y // 8
                while n and out and out[0][0] <= n:
                    n -= out.pop(0)[0]
                if n == 0 and y % 8 == 0:
                    return ("cells", out + [(y // 8, 0)])
            if op == "shl" and y % 8 == 0:
                out, n = list(x[1]), y // 8
                while n and out and out[-1][0] <= n:
                    n -= out.pop()[0]
                if n == 0:
                    return ("cells", [(y // 8, 0)] + out)
            if op == "and":
                out, at, okk = [], 0, True
                for n, v in x[1]:
                    m = y >> (8 * at) & ((1 << 8 * n) - 1)
                    if m == 0:
                        v = 0
                    elif m != (1 << 8 * n) - 1:
                        okk = False
                    out.append((n, v))
                    at += n
                if okk:
                    return ("cells", out)
        if op == "or" and (cells(x) or cells(y)):
            if not cells(x):
                x, y = y, x
            ys = y[1] if cells(y) else [(s, 0) if y == 0 else None for s, _ in x[1]]
            if None not in ys and [s for s, _ in x[1]] == [s for s, _ in ys] and all(p[1] == 0 or q[1] == 0 for p, q in zip(x[1], ys)
                                                                                       if isinstance(p[1], int) or isinstance(q[1], int)):
                return ("cells", [(p[0], q[1] if isinstance(p[1], int) and p[1] == 0 else p[1]) for p, q in zip(x[1], ys)])
        if isinstance(x, tuple) or isinstance(y, tuple):
            raise AnalysisError("%s of %s and %s at %s" % (op, x, y, where(i)))
        X, Y = self.sym(sx(x, w) if isinstance(x, int) else x), self.sym(sx(y, w) if isinstance(y, int) else y)
        if op in ("add", "sub", "mul"):
            return X + Y if op == "add" else X - Y if op == "sub" else X * Y
        return self.A.term(op, (X, Y))

    FUN = {"sqrt": "sqrt", "sin": "sin", "cos": "cos", "tan": "tan", "floor": "floor", "ceil": "ceil", "acos": "acos",
           "asin": "asin", "atan": "atan", "atan2": "atan2", "hypot": "hypot", "pow": "pow", "exp": "exp", "round": "round",
           "fabs": "fabs"}

    def fun(self, nm, a):
        if any(x is None for x in a):
            return None
        if nm == "sqrt":
            return self.A.sqrt(a[0])
        if nm == "hypot":
            return self.A.sqrt(a[0] * a[0] + a[1] * a[1])
        if nm == "fabs":
            return self.w.abs(self.sym(a[0]))
        if nm in ("minnum", "minimum", "min"):
            return self.w.min(self.sym(a[0]), self.sym(a[1]))
        if nm in ("maxnum", "maximum", "max"):
            return self.w.max(self.sym(a[0]), self.sym(a[1]))
        if nm == "fma":
            return a[0] * a[1] + a[2]
        if nm in ("sin", "cos") and a[0].cval() == 0:
            return self.A.const(int(nm == "cos"))
        return self.A.term(nm, tuple(a))

    def call(self, env, i):
        fn = i.get("fn")
        a = [self.val(env, o) for o in i["args"]]
        if i.get("noret") or "asm" in i and i.get("noret"):
            self.trap = where(i)
            return None
        if fn is None:
            if "asm" in i:
                return None
            raise AnalysisError("indirect call at %s" % where(i))
        if fn in self.calls:
            return self.calls[fn](self, a, i)
        d = self.mod.dname(fn)
        if d in self.calls:
            return self.calls[d](self, a, i)
        short = d.split("(")[0].split("::")[-1].split(" ")[-1]
        if short in ("memcpy", "memmove", "memset") and ("Libc" in d or d == short):
            fn = "llvm." + short
        if fn.startswith("llvm."):
            if fn.startswith("llvm.lifetime") or fn.startswith("llvm.dbg") or fn.startswith("llvm.assume") or fn.startswith("llvm.experimental.noalias"):
                return None
            if fn.startswith("llvm.trap") or fn.startswith("llvm.debugtrap"):
                self.trap = where(i)
                return None
            if fn.startswith("llvm.memcpy") or fn.startswith("llvm.memmove"):
                d, s, n = a[:3]
                src = self.mem[s[1]]
                cells = [(k, v) for k, v in src.items() if s[2] <= k and k + v[0] <= s[2] + n]
                dst = self.mem[d[1]]
                for k in [k for k in dst if d[2] <= k < d[2] + n]:
                    del dst[k]
                for k, (z, v) in cells:
                    dst[k - s[2] + d[2]] = (z, v)
                    self.wrote.append((d[1], k - s[2] + d[2]))
                return None
            if fn.startswith("llvm.memset"):
                d, v, n = a[:3]
                if v != 0:
                    raise AnalysisError("memset of %s at %s" % (v, where(i)))
                for k in range(0, n - n % 4, 4):
                    self.put(d[1], d[2] + k, 4, 0)
                return None
            base = fn.split(".")
            nm = base[1]
            if nm == "vector" and base[2] == "reduce":
                k = base[3]
                r = a[-1][0]
                for x in a[-1][1:]:
                    if k in ("and", "or", "xor", "add", "mul"):
                        r = self.int(k, i["ty"], [r, x], i)
                    elif k in ("fadd", "fmul"):
                        r = r + x if k == "fadd" else r * x
                    elif k in ("fmin", "fmax"):
                        r = self.fun(k[1:], [r, x])
                    else:
                        raise AnalysisError("reduction %s" % fn)
                if k in ("fadd", "fmul"):
                    r = self.sym(a[0]) + r if k == "fadd" else self.sym(a[0]) * r
                return r
            nm = {"fmuladd": "fma"}.get(nm, nm)
            if nm in ("smin", "smax", "umin", "umax"):
                f = lambda xs: self.imm(nm, xs)
            elif nm == "abs":
                f = lambda xs: self.iabs(xs[0], i)
            elif nm in self.FUN or nm in ("minnum", "maxnum", "minimum", "maximum", "fma"):
                f = lambda xs: self.fun(nm, xs)
            else:
                raise AnalysisError("intrinsic %s at %s" % (fn, where(i)))
            if isinstance(a[0], list):
                k = 1 if nm == "abs" and not isinstance(a[-1], list) else len(a)
                return [f([x[j] for x in a[:k]]) for j in range(len(a[0]))]
            return f(a)
        nm = fn[:-1] if fn[-1] == "f" and fn[:-1] in self.FUN else fn
        if nm in self.FUN:
            return self.fun(nm, a)
        if fn in ("abs", "llabs", "labs"):
            return self.iabs(a[0], i)
        f = self.mod.fns.get(fn)
        if f is not None and f.blocks:
            # by-value aggregates are the caller's temporaries
            return self.run(f, a)
        raise AnalysisError("call of %s at %s" % (self.mod.dname(fn)[:60], where(i)))

    def imm(self, nm, xs):
        a, b = self.sym(xs[0]), self.sym(xs[1])
        lt = self.w.sign_in(a - b, {-1}, nm[0])
        return (a if lt else b) if nm[1:] == "min" else (b if lt else a)

    def iabs(self, x, i):
        x = self.sym(x)
        return -x if self.w.sign_in(x, {-1}, "s") else x


def sx(x, w):
    return x - (1 << w) if x >> (w - 1) & 1 else x


def bits(ty):
    if ty.startswith("i") and ty[1:].isdigit():
        return int(ty[1:])
    return 64


def vec(ty):
    if ty.startswith("<"):
        n, t = ty[1:-1].split(" x ", 1)
        return int(n), t
    return None


def split(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "{[<":
            d += 1
        elif ch in "}]>":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out
