"""Quaternions: Hamilton's algebra and the rotations it represents."""
from vm import *


def hamilton(p, q):
    """(v, w)(u, s) = (w u + s v + v x u, w s - v . u)"""
    v, w, u, s = p[:3], p[3], q[:3], q[3]
    x = cross(v, u)
    return [w * u[i] + s * v[i] + x[i] for i in range(3)] + [w * s - dot(v, u)]


def conj(q):
    return [-q[0], -q[1], -q[2], q[3]]


def trig(w, x):
    """(cos, sin) of x degrees"""
    a = x * w.A.atom("deg")
    return w.A.term("cos", (a,)), w.A.term("sin", (a,))


def right_angles(w):
    """the values of the sines and cosines whose angle the branch fixes to a multiple of a right angle"""
    out, one = [], {ONE: Fr(1)}
    for kind, tab in (("cos", (1, 0, -1, 0)), ("sin", (0, 1, 0, -1))):
        for nm, args in w.A.by.get(kind, []):
            x = Rat(reduce(dict(args[0].n), w.zeros, w.A), args[0].d, w.A) / w.A.atom("deg") if w.zeros else args[0]
            for k in range(-8, 9):
                if x.eq(w.A.const(90 * k)):
                    out.append(padd({((nm, 1),): Fr(1)}, {ONE: Fr(tab[k % 4])}, -1))
    return out


def euler(w, c):
    """Rz(c) Ry(b) Rx(a), as a rotation (a quaternion and its negation are the same)"""
    A = w.A
    z = A.const(0)
    qs = []
    for i in range(3):
        co, si = trig(w, c["v"][i] / 2)
        q = [z, z, z, co]
        q[i] = si
        qs.append(q)
    want = hamilton(hamilton(qs[2], qs[1]), qs[0])
    got = c["#"]["o"]
    zs = w.zeros + right_angles(w)
    if len(got) == 4 and all(isinstance(x, Rat) for x in got):
        if all(x.eq(y, zs) for x, y in zip(got, want)) or all(x.eq(-y, zs) for x, y in zip(got, want)):
            return {}
    return {"fails": ["the result is (%s), not ±(%s)" % (", ".join(map(str, got)), ", ".join(map(str, want)))]}


def check(ctx):
    ctx.level = "proof"
    ctx.explanation = ("the value flow of every Quat operation is reduced to polynomials in the components (root, sine, cosine as terms) and "
                       "compared with Hamilton's product, the conjugate, the axis-angle and Euler constructions; rotation by a unit quaternion "
                       "and its matrix are compared modulo x^2+y^2+z^2+w^2 = 1")
    ctx.assumptions = ["arithmetic is exact (no rounding, overflow or NaN)", "axes and quaternions that are normalised are not zero"]
    ctx.trusted = ["clang 18 front end", "irdump", "lib/flow.py", "lib/alg.py"]
    b = Bench(ctx)
    a, q, o, s, v = ("a", 4), ("b", 4), ["o"], ("s", 1), ("v", 3)
    b.op("q_ident", lambda w, c: {"o": [w.A.const(k) for k in (0, 0, 0, 1)]}, [], o, "Quat{} is the identity")
    b.op("q_make", lambda w, c: {"o": c["v"] + c["s"]}, [v, s], o, "Quat{complex, real}")
    b.op("q_from4", lambda w, c: {"o": c["v"]}, [("v", 4)], o, "Quat{Vec4}")
    b.op("q_at", lambda w, c: {"o": c["a"]}, [a], o, "operator[] is the component")
    b.op("q_complex", lambda w, c: {"o": c["a"][:3]}, [a], o, "complex() is the vector part")
    b.op("q_real", lambda w, c: {"o": c["a"][3:]}, [a], o, "real() is the scalar part")
    b.op("q_conj", lambda w, c: {"o": conj(c["a"])}, [a], o, "conjugate")
    b.op("q_norm2", lambda w, c: {"o": [dot(c["a"], c["a"])]}, [a], o, "norm2")
    b.op("q_norm", lambda w, c: {"o": [w.A.sqrt(dot(c["a"], c["a"]))]}, [a], o, "norm")
    b.op("q_unit", lambda w, c: {"o": unit(w.A, c["a"])}, [a], o, "unit")
    b.op("q_mul", lambda w, c: {"o": hamilton(c["a"], c["b"])}, [a, q], o, "a * b is Hamilton's product")
    b.op("q_muls", lambda w, c: {"o": [x * c["s"][0] for x in c["a"]]}, [a, s], o, "q * s scales every component")
    b.op("q_add", lambda w, c: {"o": [x + y for x, y in zip(c["a"], c["b"])]}, [a, q], o, "sum")
    b.op("q_sub", lambda w, c: {"o": [x - y for x, y in zip(c["a"], c["b"])]}, [a, q], o, "difference")
    b.op("q_neg", lambda w, c: {"o": [-x for x in c["a"]]}, [a], o, "negation")
    eq = lambda w, c: all(w.eq0(x, y) for x, y in zip(c["a"], c["b"]))
    b.op("q_eq", lambda w, c: {"ret": eq(w, c)}, [a, q], [], "== holds exactly when all components are equal")
    b.op("q_ne", lambda w, c: {"ret": not eq(w, c)}, [a, q], [], "!= holds exactly when some component differs")

    def isunit(w, c):
        w.assume(dot(c["a"], c["a"]) - 1, {0})

    def inv(w, c):
        r = c["#"]["o"]
        if len(r) != 4 or any(not isinstance(x, Rat) for x in r):
            return {"fails": ["a component is not set"]}
        one = [w.A.const(k) for k in (0, 0, 0, 1)]
        # the norm of a unit quaternion is one, also under the root
        fix = [f for x, y in zip(hamilton(c["a"], r), one) for f in [not eq1(w, x, y)]]
        return {"fails": ["q * q.inverse() is (%s)" % ", ".join(map(str, hamilton(c["a"], r)))] if any(fix) else []}

    def eq1(w, x, y):
        return x.eq(y, w.zeros + [p for p in roots(w)])

    def roots(w):
        """sqrt(t) = 1 wherever t = 1 is known"""
        out = []
        for nm, args in w.A.by.get("sqrt", []):
            if args[0].eq(w.A.const(1), w.zeros):
                out.append({((nm, 1),): Fr(1), ONE: Fr(-1)})
        return out
    b.op("q_inv", inv, [a], o, "q * q.inverse() is the identity for unit q", known=isunit)
    rot = lambda q, x: hamilton(hamilton(q, list(x) + [q[0].A.const(0)]), conj(q))[:3]
    b.op("q_rot", lambda w, c: {"o": rot(c["a"], c["v"])}, [a, v], o, "rotate(v) is q v q* for unit q", known=isunit)

    def tomat(w, c):
        A = w.A
        e = [[A.const(int(i == j)) for i in range(3)] for j in range(3)]
        return {"o": affine(A, [rot(c["a"], x) for x in e])}
    b.op("q_mat", tomat, [a], o, "to_mat() is the matrix of rotate() for unit q", known=isunit)

    def axis(w, c):
        co, si = trig(w, c["s"][0] / 2)
        return {"o": [x * si for x in unit(w.A, c["v"])] + [co]}
    b.op("q_axis", axis, [v, s], o, "axis_angle is (u sin(angle/2), cos(angle/2)), angle in degrees")
    b.op("q_euler", euler, [v], o, "euler(a, b, c) turns by a about x, then b about y, then c about z")
    ctx.floor("operations compared", b.n, 20)
    ctx.count("branches of the case splits", b.branches)
    ctx.count("instructions on the value flow", b.insts)
