"""Integer and scalar helpers: powers of two, alignment, bit counting, integer powers, limits and the scalar functions."""
from bits import *
from flow import Flow, World, explore
from alg import *

SIZE = {"u8": 8, "u32": 32, "u64": 64, "i32": 32, "i64": 64}

LIMITS = '''#include <rpp/base.h>
using namespace rpp;
'''
LIM = [("u8", "255", "0"), ("u16", "65535", "0"), ("u32", "0xffffffffu", "0"), ("u64", "~0ull", "0"), ("i8", "127", "-128"), ("i16", "32767", "-32768"),
       ("i32", "__INT_MAX__", "-__INT_MAX__ - 1"), ("i64", "__LONG_LONG_MAX__", "-__LONG_LONG_MAX__ - 1"),
       ("f32", "__FLT_MAX__", "-__FLT_MAX__"), ("f64", "__DBL_MAX__", "-__DBL_MAX__")]
FLIM = [("f32", "smallest_norm", "__FLT_MIN__"), ("f32", "smallest_denorm", "__FLT_DENORM_MIN__"), ("f32", "epsilon", "__FLT_EPSILON__"),
        ("f64", "smallest_norm", "__DBL_MIN__"), ("f64", "smallest_denorm", "__DBL_DENORM_MIN__"), ("f64", "epsilon", "__DBL_EPSILON__")]


class Pow(Flow):
    """exact polynomials"""

    def icast(self, op, x, sty, ty, i):
        if isinstance(x, Rat):
            return x
        return super().icast(op, x, sty, ty, i)


def root(n, e):
    """the largest b with b^e <= n"""
    lo, hi = 1, n
    while lo < hi:
        m = (lo + hi + 1) // 2
        lo, hi = (m, hi) if m ** e <= n else (lo, m - 1)
    return lo


def check(ctx):
    ctx.level = "bounded"
    ctx.explanation = ("every bit of every integer helper is computed as a decision diagram over the bits of the input and compared with the definition for all inputs; "
                       "scalar functions and integer powers are compared with their formulas over an exact algebra")
    ctx.assumptions = ["the C library's functions compute what their names say", "alignments are not zero, and results that do not fit are not asked for"]
    mod = harness("math", default_opaque=False)
    n = [0, 0]

    def bits_case(name, fn, args, pre, spec, key, what, free=0):
        """args(b, v) -> (lists of bits, condition, expected bits); free: where the result does not matter"""
        f = mod.fns.get(fn)
        try:
            if f is None:
                raise AnalysisError("%s is missing" % fn)
            b = BDD()
            v = Vec(b)
            xs = args(b, v)
            p = pre(b, v, xs)
            want = spec(b, v, xs)
            r = Run(mod, f, b, xs, p)
            n[0] += 1
            n[1] += r.visits
            bad = []
            if b.an(p, b.no(r.returned)):
                r.faults.append(("does not return", b.an(p, b.no(r.returned))))
            for what2, c in r.faults[:2]:
                bad.append("%s for %s" % (what2, show(b, xs, c)))
            if r.result is not None:
                diff = b.an(p, b.no(v.eq(r.result, want)))
                if diff:
                    wit = b.witness(diff)
                    bad.append("is wrong for %s: %s instead of %s" % (show(b, xs, diff), at(b, r.result, wit), at(b, want, wit)))
        except AnalysisError as e:
            return ctx.undecided(name, str(e))
        if bad:
            ctx.bad(name, key, "%s (%s):\n  %s" % (what, f.dem, "\n  ".join(bad)))
        else:
            ctx.ok(name, "%d blocks" % r.visits)

    def at(b, x, wit):
        def ev(k):
            while k > 1:
                k = b.hi[k] if wit.get(b.var[k], 0) else b.lo[k]
            return k
        return sum(ev(k) << j for j, k in enumerate(x))

    def show(b, xs, c):
        wit = b.witness(c)
        return ", ".join(str(at(b, x, wit)) for x in xs)

    def whole(w):
        # the highest bit first: positions of leading bits stay small
        return lambda b, v: [[b.input(w - 1 - j) for j in range(w)]]

    def lead(b, v, x):
        out, none = [0] * len(x), 1
        for j in reversed(range(len(x))):
            out[j] = b.an(none, x[j])
            none = b.an(none, b.no(x[j]))
        return out, none
    any_ = lambda b, v, xs: 1
    nz = lambda b, v, xs: b.no(v.eq(xs[0], v.const(0, len(xs[0]))))

    def log2(b, v, xs):
        w = len(xs[0])
        ls, r = lead(b, v, xs[0])[0], v.const(0, w)
        for j in range(w):
            r = v.ite(ls[j], v.const(j, w), r)
        return r

    def clz(b, v, xs):
        w = len(xs[0])
        ls, r = lead(b, v, xs[0])[0], v.const(w, w)
        for j in range(w):
            r = v.ite(ls[j], v.const(w - 1 - j, w), r)
        return r
    prev = lambda b, v, xs: lead(b, v, xs[0])[0]

    def nextp(b, v, xs):
        p = lead(b, v, xs[0])[0]
        return v.ite(v.eq(p, xs[0]), p, [0] + p[:-1])
    # the next power of two exists up to the highest
    fits = lambda b, v, xs: b.no(b.an(xs[0][-1], b.no(v.eq(xs[0][:-1], v.const(0, len(xs[0]) - 1)))))
    low = lambda b, v, xs: b.no(v.eq(xs[0], v.const(1 << (len(xs[0]) - 1), len(xs[0]))))
    for t in ("u32", "u64"):
        w = SIZE[t]
        for nm, pre, spec, what in (("popcount", any_, lambda b, v, xs: v.count(xs[0], len(xs[0])), "popcount is the number of bits set"),
                                    ("ctlz", any_, clz, "ctlz counts the zeros before the highest bit, all of them for 0"),
                                    ("log2", nz, log2, "log2 is the position of the highest bit"),
                                    ("prev", any_, prev, "prev_pow2 is the highest power of two not above the number, 0 for 0"),
                                    ("next", fits, nextp, "next_pow2 is the lowest power of two not below the number, 0 for 0")):
            bits_case("%s(%s)" % (nm, t), "h_%s_%s" % (nm, t), whole(w), pre, spec, "%s-%s" % (nm, t), what)
    for t in ("i32", "i64"):
        bits_case("abs(%s)" % t, "h_abs_" + t, whole(SIZE[t]), low, lambda b, v, xs: v.ite(xs[0][-1], v.neg(xs[0]), xs[0]), "abs-" + t, "abs is the magnitude")
    for nm, k in (("kb", 10), ("mb", 20), ("gb", 30)):
        bits_case(nm.upper(), "h_" + nm, lambda b, v: [[b.input(j) for j in range(64)]], any_, lambda b, v, xs, k=k: v.shl(xs[0], k), nm, "%s(n) is n times 2^%d" % (nm.upper(), k))

    def asc(w, a):
        return lambda b, v: [[b.input(j) for j in range(w)], v.const(a, w)]

    def up(b, v, xs):
        a = v.value(xs[1])
        r = v.divmod(xs[0], a)[1]
        return v.ite(v.eq(r, v.const(0, len(r))), xs[0], v.add(xs[0], v.sub(xs[1], r)[0])[0])

    def upfits(b, v, xs):
        """no wrap in x + a - 1"""
        a = v.value(xs[1])
        return b.no(v.add(xs[0], v.const(a - 1, len(xs[0])))[1])

    def down(b, v, xs):
        return v.sub(xs[0], v.divmod(xs[0], v.value(xs[1]))[1])[0]
    for t in ("u32", "u64"):
        w = SIZE[t]
        for k in range(w):
            bits_case("align_pow2(%s, 2^%d)" % (t, k), "h_alignp_" + t, asc(w, 1 << k), upfits, up, "align_pow2-%s" % t, "align_pow2 rounds up to the next multiple")
            bits_case("align_down_pow2(%s, 2^%d)" % (t, k), "h_downp_" + t, asc(w, 1 << k), any_, down, "align_down_pow2-%s" % t, "align_down_pow2 rounds down to a multiple")

    # general alignments: the remainder as a term with 0 <= r < a
    def remainder(name, fn, w, isup, what, key):
        f = mod.fns.get(fn)
        bad = {}
        br = 0

        class F(Flow):
            def int(self, op, ty, a, i):
                if op in ("urem", "udiv") and all(isinstance(x, Rat) for x in a) and a[0].eq(self.A.atom("x")) and a[1].eq(self.A.atom("a")):
                    r = self.A.atom("r")
                    return r if op == "urem" else (self.A.atom("x") - r) / self.A.atom("a")
                if op in ("and", "or", "xor", "shl", "lshr", "urem", "udiv") and any(isinstance(x, Rat) for x in a):
                    raise AnalysisError("%s at %s" % (op, where(i)))
                return super().int(op, ty, a, i)

        def one(w_):
            A = w_.A
            x, a, r = A.atom("x"), A.atom("a"), A.atom("r")
            for p, S in ((r, {0, 1}), (a - r, {1}), (a, {1}), (x - r, {0, 1})):
                w_.assume(p, S)
            got = F(mod, w_).run(f, [x, a])
            zero = w_.sign_in(r, {0})
            want = x if zero or not isup and False else x + (a - r) if isup else x - r
            if not isinstance(got, Rat) or not w_.equal(got, want):
                bad["with x = q * a + r and %s the result is %s" % ("r = 0" if zero else "r > 0", got)] = 1
        A = Alg()
        br = explore(A, one)
        n[0] += 1
        n[1] += br
        if bad:
            raise Wrong(sorted(bad))
        return br

    class Wrong(Exception):
        pass
    for t in ("u32", "u64"):
        w = SIZE[t]
        for nm, fn, isup in (("align", "h_align_" + t, True), ("align_down", "h_down_" + t, False)):
            what = "%s rounds %s to a multiple" % (nm, "up" if isup else "down")
            name = "%s(%s), any alignment" % (nm, t)
            general = False
            try:
                br = remainder(name, fn, w, isup, what, nm + "-" + t)
                ctx.ok(name, "%d branches" % br)
                general = True
            except Wrong as e:
                ctx.bad(name, "%s-%s" % (nm, t), "%s (%s):\n  %s" % (what, fn, "\n  ".join(e.args[0])))
                general = True
            except AnalysisError:
                ctx.count("alignments decided per value only", 1)
            for a in [1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 24, 31, 33, 64] + [1 << k for k in range(7, w)]:
                bits_case("%s(%s, %d)" % (nm, t, a), fn, asc(w, a), upfits if isup else any_, up if isup else down, "%s-%s" % (nm, t), what) if not general or a in (1, 3, 6, 8, 1 << (w - 1)) else None

    # integer powers: every exponent to 70 (beyond 64, only bases 0, 1 and -1 fit)
    for t in ("u8", "u32", "u64", "i32", "i64"):
        fn = "h_pow_" + t
        f = mod.fns.get(fn)
        bad = {}
        try:
            if f is None:
                raise AnalysisError("%s is missing" % fn)
            for e in range(0, 71):
                A = Alg()

                def one(w_):
                    fl = Pow(mod, w_)
                    fl.iw = SIZE[t]
                    r = fl.run(f, [A.atom("base"), e])
                    n[1] += fl.insts
                    want = A.const(1)
                    for _ in range(e):
                        want = want * A.atom("base")
                    if r is None or not fl.sym(r).eq(want):
                        bad.setdefault("pow(base, %d) is %s" % (e, str(r)[:80]), 1)
                explore(A, one)
        except AnalysisError as e:
            ctx.undecided("pow(%s)" % t, str(e))
            continue
        n[0] += 1
        if bad:
            ctx.bad("pow(%s)" % t, "pow-" + t, "pow(base, exp) is base multiplied exp times (%s):\n  %s" % (f.dem, "\n  ".join(list(bad)[:3])))
        else:
            ctx.ok("pow(%s)" % t, "71 exponents")

    # scalar functions
    T = lambda nm: lambda w, a: w.A.term(nm, tuple(a))

    def sign(w, a):
        return w.A.const(0 if w.sign_in(a[0], {0}) else -1 if w.sign_in(a[0], {-1}) else 1)

    def clamp(w, a):
        return w.min(w.max(a[0], a[1]), a[2])

    def smooth(w, a):
        t = clamp(w, ((a[2] - a[0]) / (a[1] - a[0]), w.A.const(0), w.A.const(1)))
        return t * t * (w.A.const(3) - t * 2)
    scal = [(nm, k, T(nm)) for nm, k in (("cos", 1), ("sin", 1), ("tan", 1), ("acos", 1), ("asin", 1), ("atan", 1), ("atan2", 2), ("pow", 2), ("exp", 1), ("floor", 1), ("ceil", 1), ("round", 1))]
    scal += [("hypot", 2, lambda w, a: w.A.sqrt(a[0] * a[0] + a[1] * a[1])), ("fabs", 1, lambda w, a: w.abs(a[0])), ("sqrt", 1, lambda w, a: w.A.sqrt(a[0])), ("sign", 1, sign),
             ("radians", 1, lambda w, a: a[0] * w.A.atom("deg")), ("degrees", 1, lambda w, a: a[0] / w.A.atom("deg")), ("lerp", 3, lambda w, a: a[0] + (a[1] - a[0]) * a[2]),
             ("clamp", 3, clamp), ("min", 2, lambda w, a: w.min(*a)), ("max", 2, lambda w, a: w.max(*a))]
    jobs = [("h_%s_%s" % (nm, t), nm, k, t, s) for nm, k, s in scal for t in ("f32", "f64")]
    jobs += [("h_frac_f32", "frac", 1, "f32", lambda w, a: a[0] - w.A.term("trunc", (a[0],))), ("h_smoothstep_f32", "smoothstep", 3, "f32", smooth)]
    for t in ("i32", "u64"):
        jobs += [("h_min_" + t, "min", 2, t, lambda w, a: w.min(*a)), ("h_max_" + t, "max", 2, t, lambda w, a: w.max(*a))]
    jobs += [("h_clamp_i32", "clamp", 3, "i32", clamp)]
    for t in ("i32", "f32"):
        jobs += [("h_min3_" + t, "min of a list", 3, t, lambda w, a: w.min(w.min(a[0], a[1]), a[2])), ("h_max3_" + t, "max of a list", 3, t, lambda w, a: w.max(w.max(a[0], a[1]), a[2]))]

    class Tagged(World):
        """comparisons of any signedness are of the same mathematical values"""

        def sign_in(self, x, S, tag="f"):
            # squares of what is not zero do not matter
            p = pmul(x.n, x.d)
            for a in self.nonzero:
                e = min((dict(m).get(a, 0) for m in p), default=0) // 2 * 2
                if e:
                    p = {tuple((n, k - (e if n == a else 0)) for n, k in m if k > e or n != a): c for m, c in p.items()}
                    x = Rat(p, {ONE: 1}, self.A)
            return super().sign_in(x, S, "f")
        nonzero = ()
    for fn, nm, k, t, spec in jobs:
        name = "%s(%s)" % (nm, t)
        f = mod.fns.get(fn)
        bad = {}
        A = Alg()

        def one(w_):
            xs = [A.atom("abc"[j]) for j in range(k)]
            if nm == "smoothstep":  # the position between two different edges
                w_.nonzero = ("b",)
                xs = [xs[0], xs[0] + xs[1], xs[0] + xs[1] * xs[2]]
            if t in ("i32", "f32") and "list" in nm:
                top = A.const((1 << 31) - 1) if t == "i32" else A.const(Fr_max())
                bot = A.const(-(1 << 31)) if t == "i32" else A.const(-Fr_max())
                for x in xs:
                    w_.assume(x - top, {-1, 0})
                    w_.assume(x - bot, {0, 1})
            if t == "u64":
                for x in xs:
                    w_.assume(x, {0, 1})
            fl = Flow(mod, w_)
            fl.iw = SIZE.get(t, 32)
            r = fl.run(f, xs)
            if fl.trap:
                bad["stops at %s" % fl.trap] = 1
                return
            want = spec(w_, xs)
            n[1] += fl.insts
            if r is None or not (fl.sym(r).eq(want, w_.zeros) or w_.equal(fl.sym(r), want)):
                bad["the result is %s instead of %s when %s" % (str(r)[:80], str(want)[:80], "; ".join(w_.log[:4]) or "always")] = 1
        try:
            if f is None:
                raise AnalysisError("%s is missing" % fn)
            explore(A, one, world=Tagged)
        except AnalysisError as e:
            ctx.undecided(name, str(e))
            continue
        n[0] += 1
        if bad:
            ctx.bad(name, name.replace(" ", "-"), "%s is not its formula (%s):\n  %s" % (name, f.dem, "\n  ".join(list(bad)[:3])))
        else:
            ctx.ok(name, "matches")

    # limits, judged by the type checker
    lines = LIMITS.split("\n")
    own = {}
    for t, hi, lo in LIM:
        lines.append("static_assert(Limits<%s>::max() == %s && Limits<%s>::min() == %s);" % (t, hi, t, lo))
        own[len(lines)] = t
    for t, m, x in FLIM:
        lines.append("static_assert(Limits<%s>::%s() == %s);" % (t, m, x))
        own[len(lines)] = t + "::" + m
    # signed overflow anywhere in a constant expression is an error: the extreme bases of every exponent
    for t, top in (("i32", (1 << 31) - 1), ("i64", (1 << 63) - 1)):
        for e in range(0, 64):
            for b in sorted({0, 1, -1} | ({root(top, e), -root(top, e)} if e else set()), key=abs):
                lines.append("static_assert(Math::pow<%s>(%s, %d) == %s);" % (t, b, e, b ** e))
                own[len(lines)] = "pow<%s>(%d, %d)" % (t, b, e)
    rc, out = syntax_only("\n".join(lines), ["-ferror-limit=0", "-fno-color-diagnostics"])
    hit = {own.get(int(m.group(1))) for m in re.finditer(r"/w_[^:]*:(\d+):\d+: error", out)}
    if rc and not hit - {None}:
        ctx.fail("the limits do not compile:\n" + out[-800:])
    for ln, t in own.items():
        n[0] += 1
        if t.startswith("pow"):
            if t in hit:
                ctx.bad(t, t[:8], "%s overflows on the way although the result fits, or is not %s" % (t, lines[ln - 1].split("== ")[1][:-2]))
            else:
                ctx.ok(t, "constant")
        elif t in hit:
            ctx.bad("Limits<%s>" % t, "limits-" + t, "Limits<%s> differs from the type's own limit: %s" % (t, lines[ln - 1]))
        else:
            ctx.ok("Limits<%s>" % t, "equal")
    ctx.count("functions compared", n[0])
    ctx.count("blocks, branches and instructions", n[1])
    ctx.floor("functions compared", n[0], 250)


def Fr_max():
    from fractions import Fraction
    return Fraction(float.fromhex("0x1.fffffep+127"))
