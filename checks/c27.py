"""Vectors: every operation of Vect and F32x4 is its component formula."""
from vm import *

TYPES = [("f2", 2, "f32"), ("f3", 3, "f32"), ("f4", 4, "f32"), ("f5", 5, "f32"), ("d3", 3, "f64"), ("d4", 4, "f64"),
         ("i2", 2, "i32"), ("i3", 3, "i32"), ("i4", 4, "i32"), ("u3", 3, "u32"), ("u4", 4, "u32")]


def tdiv(A, t, x, y):
    if t[0] == "f":
        return x / y
    return A.term("sdiv" if t[0] == "i" else "udiv", (x, y))


def vectors(b, s, N, t):
    flt = t[0] == "f"
    tag = {"f": "f", "i": "s", "u": "u"}[t[0]]
    size = 8 if t == "f64" else 4
    ty = "Vect<%s, %d>" % (t, N)
    a, bb, o, sc = ("a", N), ("b", N), ["o"], ("s", 1)
    A_ = lambda c: c["a"][0].A
    z = lambda f: lambda w, c: {"o": [f(A_(c), x, y) for x, y in zip(c["a"], c["b"])]}
    zs = lambda f: lambda w, c: {"o": [f(A_(c), x, c["s"][0]) for x in c["a"]]}
    add, sub, mul = (lambda A, x, y: x + y), (lambda A, x, y: x - y), (lambda A, x, y: x * y)
    div = lambda A, x, y: tdiv(A, t, x, y)

    def op(fn, spec, ins, out, what, **k):
        b.op("%s_%s" % (fn, s), spec, ins, out, "%s: %s" % (ty, what), size=size, **k)
    for nm, f, sy in (("add", add, "+"), ("sub", sub, "-"), ("mul", mul, "*"), ("div", div, "/")):
        op(nm, z(f), [a, bb], o, "a %s b is component-wise and changes no operand" % sy)
        op(nm + "s", zs(f), [a, sc], o, "v %s s applies the scalar to every component" % sy)
        op("s" + nm, zs(lambda A, x, y: f(A, y, x)), [a, sc], o, "s %s v has the scalar on the left of every component" % sy)

        def both(f, right):
            def spec(w, c):
                A = c["t"][0].A
                r = [f(A, x, y) for x, y in zip(c["t"], c["b"] if right == "b" else c["s"] * N)]
                return {"t": r, "o": r}
            return spec
        op("i" + nm, both(f, "b"), [("t", N), bb], o, "a %s= b updates a component-wise and yields the result" % sy)
        op("i" + nm + "s", both(f, "s"), [("t", N), sc], o, "v %s= s updates every component and yields the result" % sy)

    def alleq(w, c):
        return all(w.sign_in(x - y, {0}) for x, y in zip(c["a"], c["b"]))
    op("eq", lambda w, c: {"ret": alleq(w, c)}, [a, bb], [], "== holds exactly when all components are equal")
    op("ne", lambda w, c: {"ret": not alleq(w, c)}, [a, bb], [], "!= holds exactly when some component differs")
    dot = lambda x, y: total([p * q for p, q in zip(x, y)])
    op("norm2", lambda w, c: {"o": [dot(c["a"], c["a"])]}, [a], o, "norm2 is the sum of squares")
    op("dot", lambda w, c: {"o": [dot(c["a"], c["b"])]}, [a, bb], o, "dot is the sum of products")
    lt = lambda w, x, y: w.sign_in(x - y, {-1}, tag)
    mn = lambda w, x, y: x if lt(w, x, y) else y
    mx = lambda w, x, y: y if lt(w, x, y) else x

    def fold(w, f, xs):
        r = xs[0]
        for x in xs[1:]:
            r = f(w, r, x)
        return r
    op("vmin", lambda w, c: {"o": [fold(w, mn, c["a"])]}, [a], o, "min() is the smallest component")
    op("vmax", lambda w, c: {"o": [fold(w, mx, c["a"])]}, [a], o, "max() is the largest component")
    op("min", lambda w, c: {"o": [mn(w, x, y) for x, y in zip(c["a"], c["b"])]}, [a, bb], o, "min(a, b) is component-wise")
    op("max", lambda w, c: {"o": [mx(w, x, y) for x, y in zip(c["a"], c["b"])]}, [a, bb], o, "max(a, b) is component-wise")
    if N <= 3:
        op("clamp", lambda w, c: {"o": [mx(w, mn(w, x, h), l) for x, l, h in zip(c["a"], c["b"], c["c"])]},
           [a, bb, ("c", N)], o, "clamp(x, lo, hi) is max(min(x, hi), lo) per component")
    else:
        for k in range(N):
            def inside(w, c, k=k):
                for j in range(N):
                    if j != k:
                        w.assume(c["a"][j] - c["b"][j], {1}, tag)
                        w.assume(c["c"][j] - c["a"][j], {1}, tag)
            op("clamp", lambda w, c: {"o": [mx(w, mn(w, x, h), l) for x, l, h in zip(c["a"], c["b"], c["c"])]},
               [a, bb, ("c", N)], o, "clamp(x, lo, hi) is max(min(x, hi), lo) for component %d, the others within" % k, known=inside)
    op("splat", lambda w, c: {"o": c["s"] * N}, [sc], o, "Vect{s} has s in every component")
    op("zero", lambda w, c: {"o": [w.A.const(0)] * N}, [], o, "Vect{} is zero")
    op("at", lambda w, c: {"o": c["a"]}, [a], o, "operator[] reads and writes component i")
    op("iter", lambda w, c: {"o": c["a"]}, [a], o, "begin()..end() are the components in order")
    if t[0] in "fi":
        ab = lambda w, x: -x if w.sign_in(x, {-1}, tag) else x
        for nm in ("abs", "abs2"):
            op(nm, lambda w, c: {"o": [ab(w, x) for x in c["a"]]}, [a], o, "abs is component-wise and changes no operand")
        op("neg", lambda w, c: {"o": [-x for x in c["a"]]}, [a], o, "-v is the negated vector and leaves v as it was")
    if flt:
        n = lambda c, k: c[k][0].A.sqrt(dot(c[k], c[k]))
        un = lambda c, k: [x / n(c, k) for x in c[k]]
        op("norm", lambda w, c: {"o": [n(c, "a")]}, [a], o, "norm is the root of the sum of squares")
        op("unit", lambda w, c: {"o": un(c, "a")}, [a], o, "unit() is v / |v| and leaves v as it was")
        op("normalized", lambda w, c: {"o": un(c, "a")}, [a], o, "Math::normalize(v) is v / |v|")
        op("normalize", lambda w, c: {"t": un(c, "t"), "o": un(c, "t")}, [("t", N)], o, "normalize() scales v to v / |v|")
        for k in ("floor", "ceil"):
            op(k, lambda w, c, k=k: {"o": [w.A.term(k, (x,)) for x in c["a"]]}, [a], o, "%s is component-wise and changes no operand" % k)
        op("lerp", lambda w, c: {"o": [x + (y - x) * c["s"][0] for x, y in zip(c["a"], c["b"])]}, [a, bb, sc], o,
           "lerp(a, b, t) is a + (b - a) t")
        if s in ("f3", "f4", "f5", "d4"):
            op("proj", lambda w, c: {"o": [x / c["a"][-1] for x in c["a"][:-1]]}, [a], o, "proj() divides by the last component")
            op("extend", lambda w, c: {"o": c["a"] + c["s"]}, [("a", N - 1), sc], o, "Vect{v, s} appends s to v")


def named(b):
    v3, v4 = ("a", 3), ("a", 4)
    cr = lambda a, c: [a[1] * c[2] - a[2] * c[1], a[2] * c[0] - a[0] * c[2], a[0] * c[1] - a[1] * c[0]]
    b.op("cross", lambda w, c: {"o": cr(c["a"], c["b"])}, [v3, ("b", 3)], ["o"], "cross is the vector product")
    b.op("make2", lambda w, c: {"o": c["x"] + c["y"]}, [("x", 1), ("y", 1)], ["o"], "Vec2{x, y} has the components in order")
    b.op("make3", lambda w, c: {"o": c["x"] + c["y"] + c["z"]}, [("x", 1), ("y", 1), ("z", 1)], ["o"], "Vec3{x, y, z} has the components in order")
    b.op("make4", lambda w, c: {"o": c["x"] + c["y"] + c["z"] + c["w"]}, [("x", 1), ("y", 1), ("z", 1), ("w", 1)], ["o"],
         "Vec4{x, y, z, w} has the components in order")
    for nm, arg, sl in (("xyz", v4, (0, 3)), ("yzw", v4, (1, 4)), ("xy4", v4, (0, 2)), ("yz4", v4, (1, 3)), ("zw4", v4, (2, 4)),
                        ("xy3", v3, (0, 2)), ("yz3", v3, (1, 3)), ("named4", v4, (0, 4))):
        b.op(nm, lambda w, c, sl=sl: {"o": c["a"][sl[0]:sl[1]]}, [arg], ["o"], "%s names components %d..%d" % (nm, sl[0], sl[1] - 1))


def lanes(b):
    a, bb, o = ("a", 4), ("b", 4), ["o"]
    q = lambda f: lambda w, c: {"o": [f(w, x, y) for x, y in zip(c["a"], c["b"])]}
    b.op("simd_set", lambda w, c: {"o": c["x"] + c["y"] + c["z"] + c["w"]}, [(k, 1) for k in "xyzw"], o, "F32x4::set puts its arguments in lanes 0..3")
    b.op("simd_set1", lambda w, c: {"o": c["x"] * 4}, [("x", 1)], o, "F32x4::set1 fills every lane")
    b.op("simd_zero", lambda w, c: {"o": [w.A.const(0)] * 4}, [], o, "F32x4::zero")
    b.op("simd_one", lambda w, c: {"o": [w.A.const(1)] * 4}, [], o, "F32x4::one")
    b.op("simd_add", q(lambda w, x, y: x + y), [a, bb], o, "F32x4::add adds lane by lane")
    b.op("simd_sub", q(lambda w, x, y: x - y), [a, bb], o, "F32x4::sub subtracts lane by lane")
    b.op("simd_mul", q(lambda w, x, y: x * y), [a, bb], o, "F32x4::mul multiplies lane by lane")
    b.op("simd_div", q(lambda w, x, y: x / y), [a, bb], o, "F32x4::div divides lane by lane")
    b.op("simd_min", q(lambda w, x, y: w.min(x, y)), [a, bb], o, "F32x4::min lane by lane")
    b.op("simd_max", q(lambda w, x, y: w.max(x, y)), [a, bb], o, "F32x4::max lane by lane")
    for k in ("floor", "ceil"):
        b.op("simd_" + k, lambda w, c, k=k: {"o": [w.A.term(k, (x,)) for x in c["a"]]}, [a], o, "F32x4::%s lane by lane" % k)
    b.op("simd_abs", lambda w, c: {"o": [w.abs(x) for x in c["a"]]}, [a], o, "F32x4::abs lane by lane")
    b.op("simd_dp", lambda w, c: {"o": [total([x * y for x, y in zip(c["a"], c["b"])])]}, [a, bb], o, "F32x4::dp is the dot product of all lanes")
    b.op("simd_eq", lambda w, c: {"ret": all(w.eq0(x, y) for x, y in zip(c["a"], c["b"]))}, [a, bb], [],
         "F32x4::cmpeq_all holds exactly when all lanes are equal")


def check(ctx):
    ctx.level = "proof"
    ctx.explanation = ("each operation of Vect (f32, f64, i32, u32; two to five components) and of F32x4 is reduced to the value flow of its IR; every "
                       "component of the result is a rational function of the operands' components and is compared, by normal form, with the "
                       "component formula; operands are compared with what they were before")
    ctx.assumptions = ["arithmetic is exact (no rounding, overflow or NaN)", "the non-MSVC code of simd.cpp"]
    ctx.trusted = ["clang 18 front end", "irdump", "lib/flow.py", "lib/alg.py"]
    b = Bench(ctx)
    for s, N, t in TYPES:
        vectors(b, s, N, t)
    named(b)
    lanes(b)
    ctx.floor("operations compared", b.n, 300)
    ctx.count("branches of the case splits", b.branches)
    ctx.count("instructions on the value flow", b.insts)
