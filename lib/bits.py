"""Bit-precise dataflow for integer functions: every bit of every value is a decision diagram over the bits of the inputs.
States are merged where paths meet; a block is analysed again only while the condition for reaching it is satisfiable."""
import sys
from build import *
from engine import AnalysisError
from ir import where

sys.setrecursionlimit(100000)


class BDD:
    def __init__(self, limit=3000000):
        self.var, self.lo, self.hi = [1 << 30, 1 << 30], [0, 1], [0, 1]
        self.uniq, self.memo, self.limit = {}, {}, limit

    def mk(self, v, l, h):
        if l == h:
            return l
        k = (v, l, h)
        n = self.uniq.get(k)
        if n is None:
            n = len(self.var)
            if n > self.limit:
                raise AnalysisError("decision diagrams larger than %d nodes" % self.limit)
            self.var.append(v)
            self.lo.append(l)
            self.hi.append(h)
            self.uniq[k] = n
        return n

    def input(self, v):
        return self.mk(v, 0, 1)

    def ite(self, c, a, b):
        if c == 1 or a == b:
            return a
        if c == 0:
            return b
        if a == 1 and b == 0:
            return c
        k = (c, a, b)
        r = self.memo.get(k)
        if r is None:
            v = min(self.var[c], self.var[a], self.var[b])
            s = lambda n, h: n if self.var[n] != v else (self.hi if h else self.lo)[n]
            r = self.mk(v, self.ite(s(c, 0), s(a, 0), s(b, 0)), self.ite(s(c, 1), s(a, 1), s(b, 1)))
            self.memo[k] = r
        return r

    def no(self, a):
        return self.ite(a, 0, 1)

    def an(self, a, b):
        return self.ite(a, b, 0)

    def o(self, a, b):
        return self.ite(a, 1, b)

    def x(self, a, b):
        return self.ite(a, self.no(b), b)

    def witness(self, n):
        """an assignment that makes n true"""
        r = {}
        while n > 1:
            v = self.var[n]
            r[v], n = (0, self.lo[n]) if self.lo[n] else (1, self.hi[n])
        return r


class Vec:
    """arithmetic on lists of bits, lowest first"""

    def __init__(self, b):
        self.b = b

    def const(self, v, w):
        return [v >> i & 1 for i in range(w)]

    def value(self, x):
        return sum(v << i for i, v in enumerate(x)) if all(v < 2 for v in x) else None

    def ite(self, c, x, y):
        return [self.b.ite(c, p, q) for p, q in zip(x, y)]

    def add(self, x, y, c=0):
        out, b = [], self.b
        for p, q in zip(x, y):
            pq = b.x(p, q)
            out.append(b.x(pq, c))
            c = b.ite(pq, c, p)
        return out, c

    def inv(self, x):
        return [self.b.no(v) for v in x]

    def sub(self, x, y):
        r, c = self.add(x, self.inv(y), 1)
        return r, self.b.no(c)

    def neg(self, x):
        return self.add(self.const(0, len(x)), self.inv(x), 1)[0]

    def eq(self, x, y):
        r = 1
        for p, q in zip(reversed(x), reversed(y)):
            r = self.b.an(r, self.b.no(self.b.x(p, q)))
        return r

    def ult(self, x, y):
        r = 0
        for p, q in zip(x, y):
            r = self.b.ite(self.b.x(p, q), q, r)
        return r

    def slt(self, x, y):
        return self.ult(x[:-1] + [self.b.no(x[-1])], y[:-1] + [self.b.no(y[-1])])

    def shl(self, x, n, fill=0):
        return ([fill] * n + x)[:len(x)]

    def shr(self, x, n, fill=0):
        return (x + [fill] * n)[n:n + len(x)] if n < len(x) else [fill] * len(x)

    def barrel(self, f, x, y, fill=0):
        for k in range(len(x).bit_length() - 1):
            x = self.ite(y[k], f(x, 1 << k, fill), x)
        return x

    def mul(self, x, y):
        if self.value(x) is not None:
            x, y = y, x
        r = self.const(0, len(x))
        for i, v in enumerate(y):
            if v:
                r = self.ite(v, self.add(r, self.shl(x, i))[0], r)
        return r

    def divmod(self, x, d):
        """by a constant"""
        w = len(x)
        if d & (d - 1) == 0:
            k = d.bit_length() - 1
            return self.shr(x, k), x[:k] + [0] * (w - k)
        n = d.bit_length() + 1
        D = self.const(d, n)
        r, q = [0] * n, [0] * w
        for i in reversed(range(w)):
            r = ([x[i]] + r)[:n]
            t, borrow = self.sub(r, D)
            q[i] = self.b.no(borrow)
            r = self.ite(q[i], t, r)
        return q, (r + [0] * w)[:w]

    def count(self, x, w):
        """how many bits are set, as w bits"""
        r = self.const(0, w)
        for v in x:
            r, c = self.add(r, self.const(0, w), v)
        return r

    def first(self, x, w):
        """how many bits before the first set one, len(x) when none is"""
        r = self.const(len(x), w)
        for i in reversed(range(len(x))):
            r = self.ite(x[i], self.const(i, w), r)
        return r


def width(ty):
    if not ty.startswith("i"):
        raise AnalysisError("a value of type %s" % ty)
    return int(ty[1:])


class Run:
    def __init__(self, mod, fn, bdd, args, pre=1):
        """args: lists of bits; pre: the inputs that count"""
        self.mod, self.fn, self.b, self.v, self.pre = mod, fn, bdd, Vec(bdd), pre
        self.faults = []  # (what, condition)
        self.visits = 0
        self.result = None
        self.why, self.own = {}, 0
        self.returned = 0
        self.go({i: a for i, a in enumerate(args)})

    def fault(self, what, cond, i):
        c = self.b.an(self.b.an(cond, self.g), self.pre)
        if c:
            self.faults.append(("%s at %s" % (what, where(i)), c))

    def poison(self, what, cond, i):
        """the result of i has no value where cond holds; it matters where something depends on it"""
        cond = self.b.an(cond, self.g)
        if cond:
            self.why[i["id"]] = what
            self.own = self.b.o(self.own, cond)

    def bad(self, env, o):
        return env.get(("p", o[1]), [0])[0] if o[0] == "v" else 0

    def depends(self, env, o, i):
        c = self.bad(env, o)
        if c:
            self.fault("%s; used" % "/".join(sorted(set(self.why.values()))), c, i)

    def val(self, env, o):
        if o[0] == "v":
            if o[1] not in env:
                raise AnalysisError("a value that is not tracked in %s" % self.fn.dem)
            return env[o[1]]
        if o[0] == "i":
            w = int(o[2])
            return self.v.const(int(o[1]) & ((1 << w) - 1), w)
        if o[0] in ("undef", "poison"):
            return self.v.const(0, width(o[1]))
        raise AnalysisError("the operand %s in %s" % (o[0], self.fn.dem))

    def order(self):
        seen, out = set(), []

        def dfs(n):
            st = [(n, iter(self.succ(n)))]
            seen.add(n)
            while st:
                m, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(self.succ(s))))
                        break
                else:
                    out.append(m)
                    st.pop()
        dfs(0)
        return {b: k for k, b in enumerate(reversed(out))}

    def succ(self, n):
        t = self.fn.blocks[n][-1]
        if t["op"] == "br":
            return t["succ"]
        if t["op"] == "switch":
            return [t["default"]] + [b for _, b in t["cases"]]
        return []

    def go(self, env):
        b = self.b
        rank = self.order()
        inloop = {}
        for l in self.fn.loops.values():
            for x in l.blocks:
                inloop[x] = inloop.get(x, 0) + 1
        pend = {0: (self.pre, env)}
        while pend:
            # blocks inside loops first, so that a loop is left once
            bl = min(pend, key=lambda x: (-inloop.get(x, 0), rank[x]))
            self.g, env = pend.pop(bl)
            env = dict(env)
            self.visits += 1
            if self.visits > 3000:
                raise AnalysisError("a loop of %s is not seen to end" % self.fn.dem)
            for i in self.fn.blocks[bl]:
                op = i["op"]
                if op == "phi":
                    continue
                if op == "ret":
                    if i["a"]:
                        r = self.val(env, i["a"][0])
                        self.depends(env, i["a"][0], i)
                        self.result = r if self.result is None else self.v.ite(self.g, r, self.result)
                    self.returned = b.o(self.returned, self.g)
                elif op == "unreachable":
                    self.fault("stops", 1, i)
                elif op == "br":
                    s = i["succ"]
                    if "cond" in i:
                        c = self.val(env, i["cond"])[0]
                        self.depends(env, i["cond"], i)
                        self.edge(pend, bl, s[0], b.an(self.g, c), env)
                        self.edge(pend, bl, s[1], b.an(self.g, b.no(c)), env)
                    else:
                        self.edge(pend, bl, s[0], self.g, env)
                elif op == "switch":
                    x = self.val(env, i["cond"])
                    rest = self.g
                    for k, t in i["cases"]:
                        c = b.an(rest, self.v.eq(x, self.val(env, k)))
                        rest = b.an(rest, b.no(c))
                        self.edge(pend, bl, t, c, env)
                    self.edge(pend, bl, i["default"], rest, env)
                else:
                    self.own = 0
                    r = self.step(env, i)
                    if r is not None:
                        env[i["id"]] = r
                        ops = i["args"] if op == "call" else i["a"]
                        if op == "select":
                            c = self.val(env, ops[0])[0]
                            p = b.o(self.bad(env, ops[0]), b.ite(c, self.bad(env, ops[1]), self.bad(env, ops[2])))
                        else:
                            p = self.own
                            for o in ops:
                                p = b.o(p, self.bad(env, o))
                        if op == "freeze":
                            p = 0
                        if p or ("p", i["id"]) in env:
                            env[("p", i["id"])] = [p]

    def edge(self, pend, a, t, g, env):
        if not g:
            return
        new = dict(env)
        for i in self.fn.blocks[t]:
            if i["op"] != "phi":
                break
            for p, o in i["in"]:
                if p == a:
                    new[i["id"]] = self.val(env, o)
                    p = self.bad(env, o)
                    if p or ("p", i["id"]) in env:
                        new[("p", i["id"])] = [p]
        if t in pend:
            og, oe = pend[t]
            for k, x in oe.items():
                if k in new:
                    new[k] = self.v.ite(g, new[k], x) if new[k] != x else x
                else:
                    new[k] = x
            g = self.b.o(g, og)
        pend[t] = (g, new)

    def step(self, env, i):
        op, v, b = i["op"], self.v, self.b
        if op == "call":
            return self.call(env, i)
        a = [self.val(env, o) for o in i["a"]]
        if op == "freeze":
            return a[0]
        if op in ("and", "or", "xor"):
            f = {"and": b.an, "or": b.o, "xor": b.x}[op]
            return [f(p, q) for p, q in zip(*a)]
        if op == "add":
            r, _ = v.add(*a)
            if i.get("nsw"):
                self.poison("signed overflow", b.an(b.no(b.x(a[0][-1], a[1][-1])), b.x(r[-1], a[0][-1])), i)
            return r
        if op == "sub":
            r, _ = v.sub(*a)
            if i.get("nsw"):
                self.poison("signed overflow", b.an(b.x(a[0][-1], a[1][-1]), b.x(r[-1], a[0][-1])), i)
            return r
        if op == "mul":
            return v.mul(*a)
        if op in ("shl", "lshr", "ashr"):
            w = len(a[0])
            self.poison("shift by %d or more" % w, b.no(v.ult(a[1], v.const(w, w + 1)[:w])) if w < 1 << w else 0, i)
            n = v.value(a[1])
            f = v.shl if op == "shl" else v.shr
            fill = a[0][-1] if op == "ashr" else 0
            return f(a[0], n, fill) if n is not None else v.barrel(f, a[0], a[1], fill)
        if op in ("udiv", "urem", "sdiv", "srem"):
            d = v.value(a[1])
            if d is None or op[0] == "s" and d >> (len(a[1]) - 1):
                raise AnalysisError("division by a variable at %s" % where(i))
            if d == 0:
                self.fault("division by zero", 1, i)
                return a[0]
            if op[0] == "u":
                return v.divmod(a[0], d)[op == "urem"]
            s = a[0][-1]
            q, r = v.divmod(v.ite(s, v.neg(a[0]), a[0]), d)
            x = r if op == "srem" else q
            return v.ite(s, v.neg(x), x)
        if op == "icmp":
            return [self.cmp(i["pred"], *a)]
        if op == "select":
            return v.ite(a[0][0], a[1], a[2])
        if op == "trunc":
            return a[0][:width(i["ty"])]
        if op == "zext":
            return a[0] + [0] * (width(i["ty"]) - len(a[0]))
        if op == "sext":
            return a[0] + [a[0][-1]] * (width(i["ty"]) - len(a[0]))
        raise AnalysisError("instruction %s at %s" % (op, where(i)))

    def cmp(self, p, x, y):
        v, b = self.v, self.b
        if p in ("eq", "ne"):
            r = v.eq(x, y)
            return r if p == "eq" else b.no(r)
        lt = v.slt if p[0] == "s" else v.ult
        return {"lt": lambda: lt(x, y), "gt": lambda: lt(y, x), "le": lambda: b.no(lt(y, x)), "ge": lambda: b.no(lt(x, y))}[p[1:]]()

    def call(self, env, i):
        v, b = self.v, self.b
        fn = i.get("fn") or ""
        nm = fn[5:].rsplit(".", 1)[0] if fn.startswith("llvm.") else self.mod.dname(fn).split("(")[0] if fn else ""
        if i.get("noret") or nm in ("trap", "debugtrap"):
            self.fault("stops", 1, i)
            return None
        if nm.startswith("dbg") or nm.startswith("lifetime") or nm == "donothing":
            return None
        a = [self.val(env, o) for o in i["args"]]
        w = len(a[0]) if a else 0
        if nm == "assume":
            self.fault("assumption fails", b.no(a[0][0]), i)
            return None
        if nm == "ctpop":
            return v.count(a[0], w)
        if nm in ("ctlz", "cttz"):
            if a[1][0]:
                self.poison("leading zeros of 0", b.an(a[1][0], v.eq(a[0], v.const(0, w))), i)
            return v.first(a[0] if nm == "cttz" else a[0][::-1], w)
        if nm in ("umin", "umax", "smin", "smax"):
            lt = (v.ult if nm[0] == "u" else v.slt)(*a)
            return v.ite(lt, *(a if nm.endswith("min") else a[::-1]))
        if nm == "abs" or nm in ("labs", "llabs"):
            low = v.eq(a[0], v.const(1 << (w - 1), w))
            if len(a) == 1 or a[1][0]:
                self.poison("absolute value of the least integer", low, i)
            return v.ite(a[0][-1], v.neg(a[0]), a[0])
        if nm in ("fshl", "fshr"):
            n = v.value(a[2])
            if n is None:
                raise AnalysisError("a rotation by a variable at %s" % where(i))
            n %= w
            x = a[1] + a[0]
            return x[w - n:2 * w - n] if nm == "fshl" else x[n:n + w]
        if nm == "bswap":
            return [a[0][(w // 8 - 1 - k // 8) * 8 + k % 8] for k in range(w)]
        if nm == "bitreverse":
            return a[0][::-1]
        raise AnalysisError("call of %s at %s" % (nm or "a pointer", where(i)))
