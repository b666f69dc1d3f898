"""Random streams: bounds, determinism, and shuffles that reach every order exactly once."""
import math
from vm import *
from ir import where


class IntFlow(Flow):
    """integers as exact polynomials standing for their value modulo 2^width, with bounds"""

    def __init__(self, mod, world):
        super().__init__(mod, world)
        self.bound = {}
        self.rel = []

    def free(self, name, lo, hi):
        a = self.A.atom(name)
        self.bound[name] = (lo, hi)
        return a

    def bounds(self, x):
        if isinstance(x, int):
            return x, x
        lo, hi = self.rough(x)
        for p, l, h in self.rel:
            for k in (1, -1):
                a, b = self.rough(x - p * k)
                l2, h2 = (l, h) if k == 1 else (-h, -l)
                lo, hi = max(lo, a + l2), min(hi, b + h2)
        return lo, hi

    def rough(self, x):
        lo = hi = Fr(0)
        for m, c in x.n.items():
            a, b = Fr(1), Fr(1)
            for n, e in m:
                l, h = self.bound.get(n, (-math.inf, math.inf))
                for _ in range(e):
                    q = [u * v if u and v else 0 for u in (a, b) for v in (l, h)]
                    a, b = min(q), max(q)
            lo += min(a * c, b * c)
            hi += max(a * c, b * c)
        return lo, hi

    def unsigned(self, x, w):
        """the value in [0, 2^w), or None when the representative may lie outside"""
        lo, hi = self.bounds(x)
        return x if lo >= 0 and hi < 1 << w else None

    def signed(self, x, w):
        lo, hi = self.bounds(x)
        return x if lo >= -(1 << w - 1) and hi < 1 << w - 1 else None

    def opaque(self, op, args, lo, hi):
        t = self.A.term(op, tuple(self.sym(a) for a in args))
        nm = next(iter(t.n))[0][0]
        self.bound.setdefault(nm, (lo, hi))
        return t

    def icast(self, op, x, sty, ty, i):
        if not isinstance(x, Rat):
            return super().icast(op, x, sty, ty, i)
        n, k = bits(ty), bits(sty)
        if op == "trunc":
            return x
        y = self.unsigned(x, k) if op == "zext" else self.signed(x, k)
        if y is not None:
            return y
        return self.opaque(op + str(k), [x], 0 if op == "zext" else -(1 << k - 1), (1 << (k if op == "zext" else k - 1)) - 1)

    def scalar(self, i, op, ty, a, sty=None):
        if op in ("uitofp", "sitofp") and isinstance(a[0], Rat):
            k = bits(sty)
            x = self.unsigned(a[0], k) if op == "uitofp" else self.signed(a[0], k)
            if x is None:
                x = self.opaque(op, a, 0 if op == "uitofp" else -(1 << k - 1), (1 << (k if op == "uitofp" else k - 1)) - 1)
            lo, hi = self.bounds(x)
            if hi > 1 << (24 if ty == "float" else 53):
                self.rounds = "%s at %s may round" % (x, where(i))
            return x
        return super().scalar(i, op, ty, a, sty)

    rounds = None

    def fcmp(self, pred, x, y, i):
        lo, hi = self.bounds(self.sym(x) - self.sym(y))
        p = pred[1:]
        for sgn, okk in ((-1, hi < 0), (1, lo > 0)):
            if okk:
                return int(sgn in {"eq": {0}, "ne": {-1, 1}, "lt": {-1}, "le": {-1, 0}, "gt": {1}, "ge": {0, 1}}[p])
        if lo >= 0 and p == "lt" or hi <= 0 and p == "gt":
            return 0
        if lo >= 0 and p == "ge" or hi <= 0 and p == "le":
            return 1
        return super().fcmp(pred, x, y, i)

    def icmp(self, pred, x, y, i):
        if isinstance(x, Rat) or isinstance(y, Rat):
            w = self.iw
            f = self.signed if pred[0] == "s" else self.unsigned
            a = x if isinstance(x, int) and pred[0] != "s" else sx(x, w) if isinstance(x, int) else f(x, w)
            b = y if isinstance(y, int) and pred[0] != "s" else sx(y, w) if isinstance(y, int) else f(y, w)
            if a is not None and b is not None:
                lo, hi = self.bounds(self.sym(a) - self.sym(b))
                p = pred[-2:]
                if hi < 0 or lo > 0:
                    s = -1 if hi < 0 else 1
                    return int(s in {"eq": {0}, "ne": {-1, 1}, "lt": {-1}, "le": {-1, 0}, "gt": {1}, "ge": {0, 1}}[p])
                if lo >= 0 and p in ("ge", "lt"):
                    return int(p == "ge")
                if hi <= 0 and p in ("le", "gt"):
                    return int(p == "le")
            return int(self.w.sign_in(self.sym(x) - self.sym(y), {"eq": {0}, "ne": {-1, 1}, "lt": {-1}, "le": {-1, 0}, "gt": {1}, "ge": {0, 1}}[pred[-2:]], pred))
        return super().icmp(pred, x, y, i)

    def int(self, op, ty, a, i):
        w = bits(ty)
        x, y = a
        if x is None or y is None:
            return None
        if not isinstance(x, Rat) and not isinstance(y, Rat):
            return super().int(op, ty, a, i)
        M = 1 << w
        if op in ("add", "sub"):
            # constants as the signed number of that pattern
            X = self.sym(sx(x, w) if isinstance(x, int) else x)
            Y = self.sym(sx(y, w) if isinstance(y, int) else y)
            return X + Y if op == "add" else X - Y
        if op == "urem":
            d = y if isinstance(y, int) else self.unsigned(y, w)
            n = x if isinstance(x, int) else self.unsigned(x, w)
            if isinstance(d, int) and d > 0:
                if n is None:
                    n = x
                return self.w.choose(d)
            if d is not None and self.bounds(d)[0] > 0:
                r = self.opaque("urem", [x, d], 0, self.bounds(d)[1] - 1)
                self.rel.append((d - 1 - r, 0, self.bounds(d)[1] - 1))
                return r
            self.trap = "remainder by %s, which may be zero, at %s" % (y, where(i))
            return None
        if op == "srem":
            d = self.signed(y, w) if isinstance(y, Rat) else sx(y, w)
            if d is None or (self.bounds(d)[0] <= 0 <= self.bounds(d)[1]):
                self.trap = "remainder by %s, which may be zero, at %s" % (y, where(i))
                return None
            h = max(abs(b) for b in self.bounds(d)) - 1
            n = x if isinstance(x, int) else self.signed(x, w)
            pos = n is not None and self.bounds(n)[0] >= 0
            r = self.opaque("srem", [x, d], 0 if pos else -h, h)
            if self.bounds(d)[0] > 0:
                self.rel.append((d - 1 - r, 0, 2 * h + 1))
            return r
        if op == "lshr" and isinstance(y, int):
            return self.opaque("lshr", [x, y], 0, (M >> y) - 1)
        if op == "and" and isinstance(y, int):
            return self.opaque("and", [x, y], 0, y)
        lo, hi = (0, M - 1)
        return self.opaque("%s%d" % (op, w), [x, y], lo, hi)


def bijective(A, t, x):
    """is t built from x by steps that can be undone: odd multiples, added constants, xor with a right shift of itself"""
    steps = 0
    while True:
        if t.eq(x):
            return steps
        c = t.n.get(ONE, 0)
        t = t - c
        if len(t.n) == 1:
            m, k = next(iter(t.n.items()))
            if len(m) == 1 and m[0][1] == 1 and abs(k) == 1:
                kind, args = A.kind[m[0][0]]
                if kind.startswith("mul") and len(args) == 2:
                    k2 = args[1].cval() if args[1].cval() is not None else args[0].cval()
                    if k2 is None or int(k2) % 2 == 0:
                        return None
                    t = args[0] if args[1].cval() is not None else args[1]
                    steps += 1
                    continue
                if kind.startswith("xor") and len(args) == 2:
                    for p, q in (args, args[::-1]):
                        if len(q.n) == 1:
                            mm = next(iter(q.n))
                            kk, aa = A.kind.get(mm[0][0], ("in", ())) if mm else ("in", ())
                            if kk == "lshr" and aa[0].eq(p) and (aa[1].cval() or 0) > 0:
                                t = p
                                steps += 1
                                break
                    else:
                        if all(q.cval() is None for q in args):
                            return None
                        t = args[0] if args[1].cval() is not None else args[1]
                        steps += 1
                    continue
        return None


def check(ctx):
    ctx.level = "proof"
    ctx.explanation = ("the value flow of every operation of RNG::Stream with the state arbitrary: bounds of the results follow from interval and remainder "
                       "relations; the state is the only input; shuffles are evaluated with every value of every drawn index")
    ctx.assumptions = ["range is asked for a non-empty interval", "shuffles of up to six elements are enumerated (each step's index range is checked)"]
    ctx.trusted = ["clang 18 front end", "irdump", "lib/flow.py", "lib/alg.py"]
    mod = harness("rng")
    n = [0]

    def run(name, what, body, limit=4000):
        fn = mod.fns.get("h_" + name)
        if fn is None:
            ctx.fail("operation h_%s is missing" % name)
            return
        fails = []
        A = Alg()
        try:
            k = explore(A, lambda w: body(A, IntFlow(mod, w), fn, fails, w), limit)
        except AnalysisError as e:
            ctx.undecided("%s: %s" % (name, what), str(e))
            return
        n[0] += 1
        if fails:
            ctx.bad("%s: %s" % (name, what), "%s.%s" % (ctx.pid, name), "%s (%s):\n  %s" % (what, fn.dem, "\n  ".join(fails[:5])))
        else:
            ctx.ok("%s: %s" % (name, what), "%d branch(es)" % k)

    def stream(A, fl):
        s = fl.free("state", 0, (1 << 64) - 1)
        return fl.obj("s", {0: (8, s)}), s

    def state(fl):
        return fl.mem["s"].get(0, (0, None))[1]

    def only_state(fl, fails):
        if set(o for o, _ in fl.wrote if not o.startswith("%")) - {"s"}:
            fails.append("something besides the stream is written: %s" % sorted(set(fl.wrote))[:4])

    def nxt(A, fl, fn, fails, w):
        p, s = stream(A, fl)
        r = fl.run(fn, [p])
        if not isinstance(r, Rat) or not isinstance(state(fl), Rat):
            fails.append("the next number is %s" % (r,))
            return
        if not r.eq(state(fl)):
            fails.append("returns %s, the new state is %s" % (r, state(fl)))
        if bijective(A, state(fl), s) is None:
            fails.append("the step %s can map two states to one" % state(fl))
        only_state(fl, fails)
    run("next", "a draw moves the state by an invertible function and returns it", nxt)

    def mix(A, fl, fn, fails, w):
        x = fl.free("key", 0, (1 << 64) - 1)
        r = fl.run(fn, [x])
        if not isinstance(r, Rat) or bijective(A, r, x) is None:
            fails.append("the hash %s of an integer can map two keys to one" % r)
    run("hash", "the integer hash is invertible: distinct keys have distinct hashes", mix)

    def seeded(A, fl, fn, fails, w):
        p, s = stream(A, fl)
        x = fl.free("seed", 0, (1 << 64) - 1)
        fl.run(fn, [p, x])
        if not isinstance(state(fl), Rat) or not state(fl).eq(x):
            fails.append("the state is %s, not the seed" % state(fl))
        only_state(fl, fails)
    run("make", "a stream made from a seed starts in that state", seeded)
    run("seed", "seeding puts the stream in that state", seeded)

    step = {}

    def learn(A, fl, fn, fails, w):
        p, s = stream(A, fl)
        fl.run(fn, [p])
        step["one"] = str(state(fl))
    explore(Alg(), lambda w: learn(w.A, IntFlow(mod, w), mod.fns["h_next"], [], w))

    def once(fl, fails):
        """the operation draws exactly one number"""
        if str(state(fl)) != step["one"]:
            fails.append("the state moves to %s, not one step on" % state(fl))

    def unit(t, mant):
        def body(A, fl, fn, fails, w):
            p, s = stream(A, fl)
            r = fl.run(fn, [p])
            if not isinstance(r, Rat):
                fails.append("the result is %s" % (r,))
                return
            lo, hi = fl.bounds(r)
            if lo < 0 or hi >= 1:
                fails.append("the result %s lies in [%s, %s], not in [0, 1)" % (r, float(lo), float(hi)))
            if fl.rounds:
                fails.append(fl.rounds + " to one")
            if lo != 0 or hi < Fr(99, 100):
                fails.append("the result %s covers only [%s, %s] of the unit interval" % (r, float(lo), float(hi)))
            once(fl, fails)
            only_state(fl, fails)
        return body
    run("unit32", "unit<f32> lies in [0, 1) and covers it", unit("f32", 24))
    run("unit64", "unit<f64> lies in [0, 1) and covers it", unit("f64", 53))
    for t in ("32", "64"):
        for nm, want in (("always", 1), ("never", 0)):
            def flip(A, fl, fn, fails, w, want=want):
                p, s = stream(A, fl)
                r = fl.run(fn, [p])
                if w.log or r != want:
                    fails.append("the flip can be %s when %s" % (r, w.log))
                once(fl, fails)
            run("flip%s_%s" % (t, nm), "coin_flip(%s) is %s" % ("1" if want else "0", bool(want)), flip)
    for t in ("u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"):
        wd = int(t[1:])
        lo, hi = (0, (1 << wd) - 1) if t[0] == "u" else (-(1 << wd - 1), (1 << wd - 1) - 1)

        def rng(A, fl, fn, fails, w):
            p, s = stream(A, fl)
            a, b = fl.free("min", lo, hi), fl.free("max", lo, hi)
            fl.rel.append((b - a, 1, (1 << wd) - 1))
            fl.iw = wd
            r = fl.run(fn, [p, a, b])
            if fl.trap:
                fails.append(fl.trap)
                return
            if isinstance(r, int):
                r = A.const(r)
            if not isinstance(r, Rat):
                fails.append("the result is %s" % (r,))
                return
            l, _ = fl.bounds(r - a)
            g, _ = fl.bounds(b - 1 - r)
            if l < 0:
                fails.append("the result %s can be below min" % r)
            if g < 0:
                fails.append("the result %s can be max or more" % r)
            # every value of the interval is possible: the offset is a remainder by its whole length
            d = r - a
            if not any(k in ("urem",) and d.eq(A.term(k, ar)) and ar[1].eq(b - a) for k in ("urem",) for _, ar in A.by.get(k, [])):
                if l >= 0 and g >= 0:
                    fails.append("the offset %s is not a remainder by max - min, so some values cannot occur" % d)
            once(fl, fails)
            only_state(fl, fails)
        run("range_" + t, "range<%s>(min, max) lies in [min, max) and can be each value of it" % t, rng)

        def integer(A, fl, fn, fails, w):
            p, s = stream(A, fl)
            r = fl.run(fn, [p])
            if not isinstance(r, Rat) or not r.eq(state(fl)):
                fails.append("the result %s is not the low bits of the draw" % (r,))
            once(fl, fails)
        run("integer_" + t, "integer<%s> is the low bits of one draw" % t, integer)

    L = layouts(os.path.join(VERIF, "harness", "rng.cpp"), names=r"L_vec$")["L_vec"]
    F = {k.split(".")[-1]: v[0] for k, v in L.items()}
    for nm, ty in (("shuffle", "integers"), ("shuffle_own", "owning elements")):
        for ln in range(0, 7):
            seen = {}
            bad = []

            def shuf(A, fl, fn, fails, w):
                p, s = stream(A, fl)
                xs = [A.atom("e%d" % k) for k in range(ln)]
                d = fl.obj("data", {8 * k: (8, x) for k, x in enumerate(xs)})
                v = fl.obj("v", {F["data_"]: (8, d if ln else 0), F["length_"]: (8, ln), F["capacity_"]: (8, ln)})
                fl.iw = 64
                fl.run(fn, [p, v])
                if fl.trap:
                    fails.append("length %d: stops at %s" % (ln, fl.trap))
                    return
                out = tuple(str(fl.mem["data"].get(8 * k, (0, None))[1]) for k in range(ln))
                if sorted(out) != sorted(str(x) for x in xs):
                    fails.append("length %d: the elements become %s" % (ln, out))
                seen[out] = seen.get(out, 0) + 1
                m = fl.mem["v"]
                if m[F["length_"]][1] != ln:
                    fails.append("length %d: the length becomes %s" % (ln, m[F["length_"]][1]))
            fn = mod.fns.get("h_" + nm)
            name = "%s: %s, length %d" % (nm, ty, ln)
            if fn is None:
                ctx.fail("operation h_%s is missing" % nm)
                continue
            A = Alg()
            fails = []
            try:
                explore(A, lambda w: shuf(A, IntFlow(mod, w), fn, fails, w))
            except AnalysisError as e:
                ctx.undecided(name, str(e))
                continue
            n[0] += 1
            if not fails and (len(seen) != math.factorial(ln) or len(set(seen.values())) > 1):
                fails.append("%d of %d orders are reached, from %s draws each" % (len(seen), math.factorial(ln), sorted(set(seen.values()))))
            if fails:
                ctx.bad(name, "%s.%s" % (ctx.pid, nm), "shuffle does not permute the elements evenly (%s):\n  %s" % (fn.dem, "\n  ".join(fails[:4])))
            else:
                ctx.ok(name, "%d orders, each from equally many draws" % len(seen))
    ctx.floor("operations analysed", n[0], 35)
