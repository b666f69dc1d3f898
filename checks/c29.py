"""Matrices: the arithmetic of Mat4 and the transformations it builds."""
from vm import *

M = lambda xs: (lambda r, c: xs[4 * c + r])


def mat(f):
    """sixteen components, columns first, from entry(row, column)"""
    return [f(r, c) for c in range(4) for r in range(4)]


def det3(m, rows, cols):
    a, b, c = rows
    p, q, r = cols
    return (m(a, p) * (m(b, q) * m(c, r) - m(b, r) * m(c, q)) - m(a, q) * (m(b, p) * m(c, r) - m(b, r) * m(c, p)) +
            m(a, r) * (m(b, p) * m(c, q) - m(b, q) * m(c, p)))


def cofactor(m, i, j):
    rows, cols = [r for r in range(4) if r != i], [c for c in range(4) if c != j]
    d = det3(m, rows, cols)
    return -d if (i + j) % 2 else d


def inverse(xs):
    m = M(xs)
    det = total([m(0, j) * cofactor(m, 0, j) for j in range(4)])
    return mat(lambda r, c: cofactor(m, c, r) / det)


def rotation(w, c):
    """Rodrigues: c I + s [u]x + (1 - c) u u^T"""
    A = w.A
    u = unit(A, c["v"])
    a = c["s"][0] * A.atom("deg")
    co, si = A.term("cos", (a,)), A.term("sin", (a,))
    K = [[0, -u[2], u[1]], [u[2], 0, -u[0]], [-u[1], u[0], 0]]
    f = lambda r, k: u[r] * u[k] * (1 - co) + si * K[r][k] + (co if r == k else 0)
    return {"o": affine(A, [[f(r, k) for r in range(3)] for k in range(3)])}


def look(w, c):
    A = w.A
    F = unit(A, [x - y for x, y in zip(c["b"], c["a"])])
    S = unit(A, cross(F, c["c"]))
    U = cross(S, F)
    return {"o": affine(A, [[S[i], U[i], -F[i]] for i in range(3)], [-dot(S, c["a"]), -dot(U, c["a"]), dot(F, c["a"])])}


def turned(which, sign):
    """column `which` is the (negated) unit direction, the upper 3x3 block is orthonormal, the rest identity"""
    def spec(w, c):
        A = w.A
        got = c["#"]["o"]
        cols = [got[4 * k:4 * k + 4] for k in range(4)]
        fails = []
        if len(got) != 16 or any(not isinstance(x, Rat) for x in got):
            return {"fails": ["a component is not set"]}
        near = lambda x, y: x.eq(y) or x.near(y) or w.equal(x, y if isinstance(y, Rat) else A.const(y))
        for k in range(4):
            want = 1 if k == 3 else 0
            if not near(cols[k][3], want):
                fails.append("row 3 of column %d is %s" % (k, cols[k][3]))
        for k in range(3):
            if not near(cols[3][k], 0):
                fails.append("column 3 has %s" % cols[3][k])
        for i in range(3):
            for j in range(i, 3):
                if not near(dot(cols[i][:3], cols[j][:3]), int(i == j)):
                    fails.append("columns %d and %d are not orthonormal" % (i, j))
        u = [x * sign for x in unit(A, c["v"])]
        col = cols[which][:3]
        if not all(near(x, y) for x, y in zip(col, u)):
            # at the poles the direction itself is rounded to the axis
            pole = col[1].cval()
            uy = u[1]
            tiny = Fr(1, 10**4)
            if which == 1 and pole in (1, -1) and col[0].cval() == 0 and col[2].cval() == 0 or \
               which == 2 and col[1].cval() in (1, -1) and col[0].cval() == 0 and col[2].cval() == 0:
                if within(w, uy, pole, tiny):
                    return {"fails": fails}
            fails.append("column %d is (%s), not the direction" % (which, ", ".join(map(str, col))))
        return {"fails": fails}
    return spec


def within(w, x, k, tol):
    """do the assumed signs force |x - k| < tol?"""
    for d in (x - k - w.A.const(tol), w.A.const(k) - x - w.A.const(tol)):
        p = w.A.identities(pmul(d.n, d.d) if pconst(d.d) is None else dict(d.n))
        lead = max(p, key=mrank)
        s = p[lead]
        if w.consistent(("f", key({m: v / s for m, v in p.items()})), {1 if s > 0 else -1}):
            return False
    return True


def depth(w, c):
    """near and far land on the ends of one of the two depth conventions"""
    A = w.A
    o = c["#"]["o"]
    n, f = c["n"][0], c["f"][0]
    z = lambda d: o[10] * (-d) + o[14]
    for lo, hi in ((0, 1), (-1, 1), (1, 0), (1, -1)):
        if z(n).eq(lo) and z(f).eq(hi):
            return {}
    return {"fails": ["the near plane lands at depth %s and the far plane at %s" % (z(n), z(f))]}


def check(ctx):
    ctx.level = "proof"
    ctx.explanation = ("the value flow of every Mat4 operation is reduced to rational functions of the operands' components (sine, cosine and root as "
                       "terms with their identities) and compared with the matrix formula: sums, products, transposition, cofactor inverse, "
                       "Rodrigues rotation, view and projection matrices")
    ctx.assumptions = ["arithmetic is exact (no rounding, overflow or NaN)", "the constants Mat4::I, zero and swap_x_z are not overwritten",
                       "divisors are not zero (singular matrices, zero axes, empty view volumes)"]
    ctx.trusted = ["clang 18 front end", "irdump", "lib/flow.py", "lib/alg.py"]
    b = Bench(ctx)
    a, bb, o, s = ("a", 16), ("b", 16), ["o"], ("s", 1)
    cst = lambda f: lambda w, c: {"o": mat(lambda r, k: w.A.const(f(r, k)))}
    b.op("m_ident", cst(lambda r, k: int(r == k)), [], o, "Mat4{} is the identity")
    b.op("m_I", cst(lambda r, k: int(r == k)), [], o, "Mat4::I is the identity")
    b.op("m_zero", cst(lambda r, k: 0), [], o, "Mat4::zero is zero")
    b.op("m_swap", cst(lambda r, k: int((r, k) in ((0, 2), (1, 1), (2, 0), (3, 3)))), [], o, "Mat4::swap_x_z exchanges x and z")
    b.op("m_add", lambda w, c: {"o": [x + y for x, y in zip(c["a"], c["b"])]}, [a, bb], o, "sum")
    b.op("m_sub", lambda w, c: {"o": [x - y for x, y in zip(c["a"], c["b"])]}, [a, bb], o, "difference")

    def prod(w, c):
        x, y = M(c["a"]), M(c["b"])
        return {"o": mat(lambda r, k: total([x(r, j) * y(j, k) for j in range(4)]))}
    b.op("m_mul", prod, [a, bb], o, "A * B is the matrix product (apply B first)")
    for nm, f in (("adds", lambda x, y: x + y), ("subs", lambda x, y: x - y), ("muls", lambda x, y: x * y), ("divs", lambda x, y: x / y)):
        b.op("m_" + nm, lambda w, c, f=f: {"o": [f(x, c["s"][0]) for x in c["a"]]}, [a, s], o, "scalar operation on every entry")
    eq = lambda w, c: all(w.eq0(x, y) for x, y in zip(c["a"], c["b"]))
    b.op("m_eq", lambda w, c: {"ret": eq(w, c)}, [a, bb], [], "== holds exactly when all entries are equal")
    b.op("m_ne", lambda w, c: {"ret": not eq(w, c)}, [a, bb], [], "!= holds exactly when some entry differs")
    mv = lambda c, v: [total([M(c["a"])(r, k) * v[k] for k in range(len(v))]) for r in range(4)]
    b.op("m_v4", lambda w, c: {"o": mv(c, c["v"])}, [a, ("v", 4)], o, "M * Vec4 is the matrix-vector product")
    b.op("m_v3", lambda w, c: {"o": mv(c, c["v"] + [w.A.const(1)])[:3]}, [a, ("v", 3)], o, "M * Vec3 transforms a point (w = 1)")
    b.op("m_rot", lambda w, c: {"o": mv(c, c["v"] + [w.A.const(0)])[:3]}, [a, ("v", 3)], o, "rotate(Vec3) transforms a direction (w = 0)")
    for nm in ("T", "transpose"):
        b.op("m_" + nm, lambda w, c: {"o": mat(lambda r, k: M(c["a"])(k, r))}, [a], o, "transposition")
    for nm in ("inv", "inverse"):
        b.op("m_" + nm, lambda w, c: {"o": inverse(c["a"])}, [a], o, "inverse of a regular matrix (adjugate over determinant)")
    b.op("m_at", lambda w, c: {"o": c["a"]}, [a], o, "operator[] is the column")
    b.op("m_iter", lambda w, c: {"o": c["a"]}, [a], o, "begin()..end() are the columns in order")
    b.op("m_cols", lambda w, c: {"o": c["a"] + c["b"] + c["c"] + c["d"]}, [(k, 4) for k in "abcd"], o, "Mat4{x, y, z, w} takes columns")
    b.op("m_scale", lambda w, c: {"o": mat(lambda r, k: c["v"][r] if r == k < 3 else w.A.const(int(r == k)))}, [("v", 3)], o, "scale")
    b.op("m_translate", lambda w, c: {"o": mat(lambda r, k: c["v"][r] if k == 3 and r < 3 else w.A.const(int(r == k)))}, [("v", 3)], o, "translate")
    b.op("m_rotate", rotation, [s, ("v", 3)], o, "rotate(angle, axis) turns counter-clockwise by angle degrees about the unit axis")
    b.op("m_look", look, [("a", 3), ("b", 3), ("c", 3)], o, "look_at maps pos to the origin, the view direction to -z, up into the y-z plane")
    box = [(k, 1) for k in ("l", "r", "b", "t", "n", "f")]

    def ortho(w, c):
        A = w.A
        l, r, bo, t, n, f = (c[k][0] for k in ("l", "r", "b", "t", "n", "f"))
        got = c["#"]["o"]
        want = affine(A, [[2 / (r - l), A.const(0), A.const(0)], [A.const(0), 2 / (t - bo), A.const(0)], [A.const(0), A.const(0), got[10]]],
                      [-(l + r) / (r - l), -(bo + t) / (t - bo), got[14]])
        return {"o": want}
    b.op("m_ortho", ortho, box, o, "ortho maps [l, r] x [b, t] onto [-1, 1]^2 and does not mix axes")
    b2 = b.op
    f = b.mod.fns["h_m_ortho"]
    b.mod.fns["h_m_ortho.depth"] = f
    b2("m_ortho.depth", depth, box, o, "ortho maps the near and far planes onto the ends of the depth range")

    def proj(w, c):
        A = w.A
        k = A.term("tan", (c["fov"][0] * A.atom("deg") / 2,))
        z = A.const(0)
        return {"o": [1 / k / c["ar"][0], z, z, z, z, -1 / k, z, z, z, z, z, A.const(-1), z, z, c["n"][0], z]}
    b.op("m_proj", proj, [("fov", 1), ("ar", 1), ("n", 1)], o, "proj: x/y scaled by the field of view, w = -z, depth n/-z (1 at the near plane, 0 at infinity)")
    b.op("m_yto", turned(1, 1), [("v", 3)], o, "rotate_y_to maps the y axis to the unit direction by an orthonormal matrix")
    b.op("m_zto", turned(2, -1), [("v", 3)], o, "rotate_z_to maps the -z axis to the unit direction by an orthonormal matrix")
    ctx.floor("operations compared", b.n, 30)
    ctx.count("branches of the case splits", b.branches)
    ctx.count("instructions on the value flow", b.insts)
