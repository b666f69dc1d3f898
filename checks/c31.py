"""Bounding boxes and scalar helpers."""
from vm import *

FMAX = Fr(float.fromhex("0x1.fffffep127"))


def finite(*names):
    def known(w, c):
        for n in names:
            for x in c[n]:
                w.assume(x - w.A.const(FMAX), {-1, 0})
                w.assume(x + w.A.const(FMAX), {0, 1})
    return known


def clampf(w, x, l, h):
    return w.min(w.max(x, l), h)


def boxes(b):
    p, bx, o = ("p", 3), ("t", 6), ["o"]
    b.op("b_make", lambda w, c: {"o": c["a"] + c["b"]}, [("a", 3), ("b", 3)], o, "BBox{min, max}")

    def point(w, c):
        t, q = c["t"], c["p"]
        return {"t": [w.min(x, y) for x, y in zip(t[:3], q)] + [w.max(x, y) for x, y in zip(t[3:], q)]}
    b.op("b_point", point, [bx, p], [], "enclose(point) is the smallest box around both")

    def box(w, c):
        t, q = c["t"], c["b"]
        return {"t": [w.min(x, y) for x, y in zip(t[:3], q[:3])] + [w.max(x, y) for x, y in zip(t[3:], q[3:])]}
    b.op("b_box", box, [bx, ("b", 6)], [], "enclose(box) is the smallest box around both")
    b.op("b_first", lambda w, c: {"o": c["p"] + c["p"]}, [p], o, "a fresh box that encloses one finite point is that point", known=finite("p"))
    b.op("b_refirst", lambda w, c: {"t": c["p"] + c["p"]}, [bx, p], [], "a reset box that encloses one finite point is that point",
         known=finite("p"))
    b.op("b_fresh", lambda w, c: {"ret": True}, [], [], "a fresh box is empty")
    b.op("b_fresharea", lambda w, c: {"o": [w.A.const(0)]}, [], o, "a fresh box has no surface")
    b.op("b_center", lambda w, c: {"o": [(x + y) / 2 for x, y in zip(c["t"][:3], c["t"][3:])]}, [bx], o, "center is the midpoint")
    isempty = lambda w, t: any(w.lt(y, x) for x, y in zip(t[:3], t[3:]))
    b.op("b_isempty", lambda w, c: {"ret": isempty(w, c["t"])}, [bx], [], "empty() holds exactly when some minimum exceeds its maximum")

    def area(w, c):
        t = c["t"]
        if isempty(w, t):
            return {"o": [w.A.const(0)]}
        x, y, z = (h - l for l, h in zip(t[:3], t[3:]))
        return {"o": [2 * (x * y + y * z + z * x)]}
    b.op("b_area", area, [bx], o, "surface_area is twice the sum of the face areas, zero when empty")

    def xform(w, c):
        """the box of the eight transformed corners: the extremes are reached coordinate by coordinate"""
        t, m = c["t"], c["m"]
        lo, hi = [], []
        for r in range(3):
            a = [(m[4 * k + r] * t[k], m[4 * k + r] * t[3 + k]) for k in range(3)]
            lo.append(m[12 + r] + total([w.min(x, y) for x, y in a]))
            hi.append(m[12 + r] + total([w.max(x, y) for x, y in a]))
        return {"t": lo + hi}
    b.op("b_xform", xform, [bx, ("m", 16)], [], "transform is the box of the transformed corners (affine part)")

    # projection: the axis of the picture that runs along a diagonal, the others constant
    for n, sg in enumerate(((1, 1, 1), (1, 1, -1), (1, -1, 1), (1, -1, -1))):
        lo = lambda c, sg=sg: total([x if q > 0 else -y for q, x, y in zip(sg, c["t"][:3], c["t"][3:])])
        hi = lambda c, sg=sg: total([y if q > 0 else -x for q, x, y in zip(sg, c["t"][:3], c["t"][3:])])

        def known(w, c, lo=lo, hi=hi):
            for x, y in zip(c["t"][:3], c["t"][3:]):
                w.assume(y - x, {1})
            w.assume(lo(c) + w.A.const(FMAX), {1})
            w.assume(hi(c) - w.A.const(FMAX), {-1})
        for ax in "xyz":
            def spec(w, c, ax=ax, lo=lo, hi=hi):
                k = w.A.const
                if ax == "z":
                    if not w.lt(lo(c), k(0)):
                        return {"o": [k(7), k(9), k(7), k(9)]}
                    return {"o": [k(0)] * 4 if w.lt(hi(c), k(0)) else [k(-1), k(-1), k(1), k(1)]}
                return {"o": [lo(c), k(0), hi(c), k(0)] if ax == "x" else [k(0), lo(c), k(0), hi(c)]}
            b.op("b_proj%s%d" % (ax, n), spec, [bx], o, "project: the %s range of the box's corners (diagonal %d)" % (ax, n), known=known)


def scalars(b):
    a, bb, c3, s, o = ("a", 1), ("b", 1), ("c", 1), ("s", 1), ["o"]
    b.op("lerp", lambda w, c: {"o": [c["a"][0] + (c["b"][0] - c["a"][0]) * c["s"][0]]}, [a, bb, s], o, "lerp(a, b, t) is a + (b - a) t")
    b.op("clamp", lambda w, c: {"o": [clampf(w, c["a"][0], c["b"][0], c["c"][0])]}, [a, bb, c3], o, "clamp")
    b.op("min", lambda w, c: {"o": [w.min(c["a"][0], c["b"][0])]}, [a, bb], o, "min")
    b.op("max", lambda w, c: {"o": [w.max(c["a"][0], c["b"][0])]}, [a, bb], o, "max")
    b.op("minl", lambda w, c: {"o": [w.min(w.min(c["a"][0], c["b"][0]), c["c"][0])]}, [a, bb, c3], o, "min of a list of finite values",
         known=finite("a", "b", "c"))
    b.op("maxl", lambda w, c: {"o": [w.max(w.max(c["a"][0], c["b"][0]), c["c"][0])]}, [a, bb, c3], o, "max of a list of finite values",
         known=finite("a", "b", "c"))

    def sign(w, c):
        x = c["a"][0]
        return {"o": [w.A.const(0 if w.sign_in(x, {0}) else -1 if w.sign_in(x, {-1}) else 1)]}
    b.op("sign", sign, [a], o, "sign")
    b.op("abs", lambda w, c: {"o": [w.abs(c["a"][0])]}, [a], o, "abs")

    def smooth(w, c):
        e0, e1, x = c["a"][0], c["b"][0], c["s"][0]
        t = clampf(w, (x - e0) / (e1 - e0), w.A.const(0), w.A.const(1))
        return {"o": [t * t * (3 - 2 * t)]}
    b.op("smooth", smooth, [a, bb, s], o, "smoothstep is 3t^2 - 2t^3 of the clamped position")
    b.op("radians", lambda w, c: {"o": [c["a"][0] * w.A.atom("deg")]}, [a], o, "radians multiplies by pi / 180")
    b.op("degrees", lambda w, c: {"o": [c["a"][0] / w.A.atom("deg")]}, [a], o, "degrees multiplies by 180 / pi")
    b.op("hypot", lambda w, c: {"o": [w.A.sqrt(c["a"][0] * c["a"][0] + c["b"][0] * c["b"][0])]}, [a, bb], o, "hypot is the length of (a, b)")
    b.op("atan2", lambda w, c: {"o": [w.A.term("atan2", (c["a"][0], c["b"][0]))]}, [a, bb], o, "atan2(y, x) keeps its argument order")
    b.op("powf", lambda w, c: {"o": [w.A.term("pow", (c["a"][0], c["b"][0]))]}, [a, bb], o, "pow(x, y) keeps its argument order")
    for f in ("cos", "sin", "tan", "acos", "asin", "atan", "exp", "floor", "ceil", "round", "sqrt"):
        spec = lambda w, c, f=f: {"o": [w.A.sqrt(c["a"][0]) if f == "sqrt" else w.A.term(f, (c["a"][0],))]}
        b.op("fn_" + f, spec, [a], o, "Math::%s is the %s function" % (f, f))
        b.op("fnd_" + f, spec, [a], o, "Math::%s on f64" % f, size=8)


def check(ctx):
    ctx.level = "proof"
    ctx.explanation = ("the value flow of every BBox operation and of the scalar helpers of math.h is reduced to exact expressions, split on the "
                       "signs of the differences the code (or the specification) compares; every branch is compared with the definition")
    ctx.assumptions = ["arithmetic is exact (no rounding, overflow or NaN)", "the C library's functions compute what their names say"]
    ctx.trusted = ["clang 18 front end", "irdump", "lib/flow.py", "lib/alg.py"]
    b = Bench(ctx)
    boxes(b)
    scalars(b)
    ctx.floor("operations compared", b.n, 40)
    ctx.count("branches of the case splits", b.branches)
    ctx.count("instructions on the value flow", b.insts)
