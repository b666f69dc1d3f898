"""Hashing: equal keys hash equally, every part of a key takes part, and a hash that marks an occupied slot is never zero.

The value flow of each hash is followed with the mixing function left opaque.  Two keys that compare equal are laid out with
everything else about them different (addresses, capacities, the sign of zero), and the two results must be the same term.
"""
import struct
from build import *
from flow import *


def fbits(x, k):
    return int.from_bytes(struct.pack("<f" if k == 4 else "<d", x), "little")


class HFlow(Flow):
    """floating-point values keep their representation: ("f", size, python float) or ("fa", size, name) for one that is not zero"""

    def const(self, c):
        if c[0] == "f" and "nan" not in c[1] and "inf" not in c[1]:
            return ("f", SIZES[c[2]], float.fromhex(c[1]))
        return super().const(c)

    def isf(self, v):
        return isinstance(v, tuple) and v[0] in ("f", "fa")

    def bitcast(self, v, sty, ty, i):
        if self.isf(v):
            return self.bits(v)
        return super().bitcast(v, sty, ty, i)

    def bits(self, v):
        return fbits(v[2], v[1]) if v[0] == "f" else self.A.atom("bits(%s)" % v[2])

    def load(self, p, ty):
        v = super().load(p, ty)
        if self.isf(v) and ty not in ("float", "double"):
            return self.bits(v)
        if isinstance(v, tuple) and v[0] == "cells":
            return self.A.term("bytes", tuple(x if isinstance(x, Rat) else self.A.const(x) for _, x in v[1]))
        return v

    def get(self, o, off, n):
        if o in self.parts and not (0 <= off and off + n <= self.parts[o]):
            self.wild.append("reads bytes %d to %d of %s, which has %d" % (off, off + n, o, self.parts[o]))
        return super().get(o, off, n)

    def scalar(self, i, op, ty, a, sty=None):
        if any(self.isf(x) for x in a):
            if op == "fcmp":
                return self.fcompare(i["pred"], a[0], a[1])
            if op in ("fadd", "fsub", "fmul", "fdiv", "fneg", "fpext", "fptrunc"):
                return self.farith(op, ty, a)
            if op == "bitcast":
                return self.bits(a[0])
            raise AnalysisError("%s of a floating-point key at %s" % (op, where(i)))
        return super().scalar(i, op, ty, a, sty)

    def farith(self, op, ty, a):
        n = SIZES[ty]
        if all(x[0] == "f" for x in a):
            v = [x[2] for x in a]
            if op == "fadd":
                return ("f", n, v[0] + v[1])
            if op == "fsub":
                return ("f", n, v[0] - v[1])
            if op == "fmul":
                return ("f", n, v[0] * v[1])
            if op == "fneg":
                return ("f", n, -v[0])
            if op in ("fpext", "fptrunc"):
                return ("f", n, v[0])
        if op == "fadd":
            for x, y in (a, a[::-1]):
                if x[0] == "f" and x[2] == 0:
                    return y
        return ("fa", n, "%s(%s)" % (op, ",".join(str(x[2]) for x in a)))

    def fcompare(self, p, x, y):
        if x[0] == "f" and y[0] == "f":
            s = {(x[2] > y[2]) - (x[2] < y[2])}
        elif x == y:
            s = {0}
        else:
            key = (str(x[2]), str(y[2]))
            if key not in self.seen:
                zero = any(v[0] == "f" and v[2] == 0 for v in (x, y))
                self.seen[key] = [-1, 1, 0][self.w.choose(2 if zero else 3)]
            s = {self.seen[key]}
        S = {"eq": {0}, "ne": {-1, 1}, "lt": {-1}, "le": {-1, 0}, "gt": {1}, "ge": {0, 1}}
        if p in ("ord", "uno"):
            return int(p == "ord")
        return int(s <= S[p[1:]])

    def int(self, op, ty, a, i):
        x, y = a
        if isinstance(x, Rat) or isinstance(y, Rat):
            x, y = self.sym(x), self.sym(y)
            if op in ("add", "sub", "mul"):
                return x + y if op == "add" else x - y if op == "sub" else x * y
            return self.A.term(op, (x, y))
        return super().int(op, ty, a, i)

    def icast(self, op, x, sty, ty, i):
        if isinstance(x, Rat):
            return x if op == "zext" else self.A.term(op + sty + ty, (x,))
        if isinstance(x, tuple) and op == "ptrtoint":
            return self.A.atom("address(%s)" % x[1])
        return super().icast(op, x, sty, ty, i)

    def squirrel(self, a, i):
        return self.A.term("mix", (self.sym(a[0]),))


INTS = ["i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "char"]


def check(ctx):
    ctx.level = "bounded"
    ctx.explanation = ("the value flow of every hash is followed with the mixing function opaque, on pairs of keys that compare equal but differ in "
                       "everything else (storage, capacity, sign of zero); the results must be the same term and mention every part of the key")
    ctx.assumptions = ["texts of up to 20 bytes", "a key that is not a number (NaN) equals nothing and is not considered"]
    ctx.trusted = ["clang 18 front end", "irdump", "lib/flow.py", "lib/alg.py"]
    mod = harness("hash", opaque=["squirrel5"])
    L = layouts(VERIF + "/harness/hash.cpp")
    SF = {k.split(".")[-1]: v[0] for k, v in L["L_s"].items()}
    VF = {k.split(".")[-1]: v[0] for k, v in L["L_v"].items()}
    LF = {k.split(".", 1)[-1]: v[0] for k, v in L["L_l"].items()}
    n = [0, 0]

    def fresh(w):
        fl = HFlow(mod, w)
        fl.parts, fl.wild, fl.seen = {}, [], {}
        fl.calls["rpp::Hash::squirrel5(unsigned long)"] = HFlow.squirrel
        return fl

    # a key: (build(fl, which, side) -> pointer, number of variants, atoms) ; variants of equal keys
    def integer(t):
        size = {"char": 1}.get(t) or int(t[1:]) // 8
        return lambda fl, tag, side, var: fl.obj(tag + side, {0: (size, fl.A.atom(tag))}), 1, lambda tag: [tag]

    def flt(k):
        def b(fl, tag, side, var):
            v = ("fa", k, tag) if not var else ("f", k, 0.0 if side == "l" else -0.0)
            return fl.obj(tag + side, {0: (k, v)})
        return b, 2, lambda tag: ["bits(%s)" % tag]

    def text(F, length, owned):
        def b(fl, tag, side, var):
            A = fl.A
            d = fl.obj("data" + tag + side, {j: (1, A.atom("%s[%d]" % (tag, j))) for j in range(length)})
            fl.parts["data" + tag + side] = length
            m = {F["data_"]: (8, d), F["length_"]: (8, length)}
            if owned:
                m[F["capacity_"]] = (8, A.atom("capacity" + tag + side))
            return fl.obj(tag + side, m)
        return b, 1, lambda tag: ["%s[%d]" % (tag, j) for j in range(length)]

    def location(n1, n2):
        def b(fl, tag, side, var):
            A = fl.A
            m = {}
            for nm, ln in (("function", n1), ("file", n2)):
                d = fl.obj("data" + nm + tag + side, {j: (1, A.atom("%s.%s[%d]" % (tag, nm, j))) for j in range(ln)})
                fl.parts["data" + nm + tag + side] = ln
                m[LF[nm + ".data_"]] = (8, d)
                m[LF[nm + ".length_"]] = (8, ln)
            m[LF["line"]] = (8, A.atom(tag + ".line"))
            return fl.obj(tag + side, m)
        return b, 1, lambda tag: ["%s.%s[%d]" % (tag, nm, j) for nm, ln in (("function", n1), ("file", n2)) for j in range(ln)] + [tag + ".line"]

    def vect(k, cnt, isf):
        def b(fl, tag, side, var):
            m = {}
            for j in range(cnt):
                if isf and var >> j & 1:
                    m[k * j] = (k, ("f", k, 0.0 if (side == "l") != bool(j & 1) else -0.0))
                else:
                    nm = "%s[%d]" % (tag, j)
                    m[k * j] = (k, ("fa", k, nm) if isf else fl.A.atom(nm))
            return fl.obj(tag + side, m)
        return b, 1 << cnt if isf else 1, lambda tag: ["bits(%s[%d])" % (tag, j) if isf else "%s[%d]" % (tag, j) for j in range(cnt)]

    def pointer():
        def b(fl, tag, side, var):
            return fl.obj(tag + side, {0: (8, fl.A.atom(tag))})
        return b, 1, lambda tag: [tag]

    def atoms(A, x, out):
        if isinstance(x, Rat):
            for p in (x.n, x.d):
                for m in p:
                    for a, _ in m:
                        if a not in out:
                            out.add(a)
                            for y in A.kind.get(a, ("in", ()))[1]:
                                atoms(A, y, out)
        return out

    def nonzero(fl, r):
        """provably not zero: some bit is set, or the branch knows"""
        if isinstance(r, int):
            return r & ((1 << 64) - 1) != 0
        if len(r.n) == 1 and r.d == {ONE: 1}:
            (m, c), = r.n.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                k, ar = fl.A.kind[m[0][0]]
                if k == "or" and any(isinstance(x, Rat) and x.cval() is not None and int(x.cval()) & ((1 << 64) - 1) for x in ar):
                    return True
        return not fl.w.sign_in(r, {0})

    def run(name, what, fns, key):
        """fns: the hashes of the two sides"""
        build, nvar, parts = key
        fails = {}
        seen = set()
        br = [0]
        A = Alg()
        try:
            for var in range(nvar):
                def one(w):
                    fl = fresh(w)
                    res = []
                    for side, fn in zip("lr", fns):
                        f = mod.fns.get(fn)
                        if f is None:
                            raise AnalysisError("%s is missing" % fn)
                        args = [("p",) + build(fl, "key", side, var)[1:]]
                        if "_two_" in fn:
                            args.append(fl.obj("second" + side, {0: (8, A.atom("second"))}))
                        before = {o: dict(fl.mem[o]) for o in fl.mem}
                        r = fl.run(f, args)
                        if fl.trap:
                            fails["stops at %s" % fl.trap] = 1
                            return
                        if r is None or not isinstance(r, (int, Rat)):
                            fails["the result is %s" % (r,)] = 1
                            return
                        for o in before:
                            if fl.mem[o] != before[o]:
                                fails["hashing changes the key"] = 1
                        res.append(fl.sym(r))
                    for x in fl.wild:
                        fails[x] = 1
                    a, b = res
                    if not a.eq(b):
                        fails["two equal keys hash to %s and %s%s" % (a, b, " (the keys hold 0.0 and -0.0)" if var and nvar > 1 else "")] = 1
                    ats = atoms(A, a, set())
                    if not var:
                        seen.update(ats)  # over all branches: one that fixes the whole hash need not mention its parts
                    if "_nz_" in fns[0]:
                        for r in res:
                            if not nonzero(fl, r):
                                fails["the hash can be zero, which marks an empty slot"] = 1
                br[0] += explore(A, one)
                if not var and not fails:
                    for p in parts("key") + (["second"] if "_two_" in fns[0] else []):
                        if p not in seen:
                            fails["%s does not take part in the hash" % p] = 1
        except AnalysisError as e:
            return ctx.undecided(name, str(e))
        n[0] += 1
        n[1] += br[0]
        if fails:
            f = mod.fns.get(fns[0])
            ctx.bad(name, "%s:%s" % (name.replace(" ", "-"), sorted(fails)[0][:40].replace(" ", "-")), "%s (%s):\n  %s" % (what, f.dem if f else fns[0], "\n  ".join(sorted(fails)[:4])))
        else:
            ctx.ok(name, "%d branches" % br[0])

    keys = {t: integer(t) for t in INTS}
    keys.update(f32=flt(4), f64=flt(8), ptr=pointer(), f3=vect(4, 3, True), d2=vect(8, 2, True), i3=vect(4, 3, False), f4=vect(4, 4, True))
    for t, k in keys.items():
        for pre, nm in (("h_", "hash"), ("h_nz_", "hash_nonzero"), ("h_two_", "hash of two values")):
            run("%s of %s" % (nm, t), "%s(%s)" % (nm, t), [pre + t] * 2, k)
    for ln in list(range(0, 36)) + [47, 48, 63, 64, 65, 66, 79, 80, 96, 99, 127, 128, 129, 200, 255, 256, 257]:
        for pre, nm in (("h_", "hash"), ("h_nz_", "hash_nonzero")):
            run("%s of String, %d bytes" % (nm, ln), "%s(String)" % nm, [pre + "s"] * 2, text(SF, ln, True))
            run("%s of String_View, %d bytes" % (nm, ln), "%s(String_View)" % nm, [pre + "v"] * 2, text(VF, ln, False))
            both = (lambda fl, tag, side, var, ln=ln: (text(SF, ln, True) if side == "l" else text(VF, ln, False))[0](fl, tag, side, var)), 1, text(VF, ln, False)[2]
            run("%s of String and String_View, %d bytes" % (nm, ln), "%s of the same text" % nm, [pre + "s", pre + "v"], both)
    for n1, n2 in ((0, 0), (3, 0), (0, 4), (2, 3), (9, 8)):
        for pre, nm in (("h_", "hash"), ("h_nz_", "hash_nonzero")):
            run("%s of Location, %d and %d bytes" % (nm, n1, n2), "%s(Log::Location)" % nm, [pre + "l"] * 2, location(n1, n2))
    ctx.count("hashes compared", n[0])
    ctx.count("branches", n[1])
    ctx.floor("hashes compared", n[0], 100)
