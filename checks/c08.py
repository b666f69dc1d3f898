"""Pair, Tuple, Array and Slice hold exactly the elements they were made of."""
from specs import *
from objs import *

S = 24


def slice_case(ctx, mod, fn, want):
    """want(eng, st, d, n, args, ret, how) -> problem or None, over every path from an arbitrary slice"""
    f = mod.fns.get(fn)
    if f is None:
        return ctx.fail("harness function %s vanished" % fn)
    m = ContModel(False)
    eng = Engine(mod, m)
    eng.wrap = True
    st = State()
    a = []
    for i, x in enumerate(f.args):
        t = fresh("arg%d" % i, ptr=x["ty"] == "ptr", nn=True)
        st.env[i] = P(t)
        a.append(t)
        if t.ptr:
            st = st.assume1(c_ge(P(t) - 1)).copy()
        else:
            st = st.assume1(c_ge(P(t))).copy().assume1(c_ge(P((1 << 64) - 1) - P(t))).copy()
    d, n = fresh("data", ptr=True), fresh("length", nn=True)
    st = st.assume1(c_ge(P(d))).copy()
    eng.store(st, P(a[0]), P(d), 8, None, "ptr")
    eng.store(st, P(a[0]) + 8, P(n), 8, None, "i64")
    st = st.assume1(c_ge(P(n))).copy().assume1(c_ge(P(1 << 58) - P(n))).copy()
    try:
        outs = eng.run(f, st)
        if not outs:
            ctx.undecided("Slice." + fn[4:], "no feasible path")
        for o in outs:
            pb = want(eng, o[1], P(d), P(n), a, o[2] if len(o) > 2 else None, o[0])
            if pb:
                ctx.bad("Slice." + fn[4:], "Slice.%s:%s" % (fn[4:], pb.split(":")[0]), "Slice.%s: %s\n  path facts %r" % (fn[4:], pb, o[1].facts[:10]))
            else:
                ctx.ok("Slice." + fn[4:], o[0])
    except AnalysisError as e:
        ctx.undecided("Slice." + fn[4:], str(e)[:200])
    ctx.count("operations")


def must(pre, val=None, outs=None):
    """terminates exactly outside pre; returns val inside"""
    def f(eng, st, d, n, a, rv, how):
        c = pre(n, a)
        if how == "die":
            return None if not st.assume(c) else "dies: terminates on a valid argument"
        if st.assume(c_not(c)):
            return "unchecked: continues outside its domain"
        if val is not None:
            w = val(d, n, a)
            if is_cond(w):
                got = eng.tocond(rv)
                for c1, c2 in ((w, c_not(got)), (c_not(w), got)):
                    for s in st.assume(c1):
                        if s.assume(c2):
                            return "value: %r, expected %r" % (got, w)
            elif not st.eq0(rv - w):
                return "value: %r, expected %r" % (st.norm(rv), st.norm(w))
        for at, ty, w in (outs(d, n, a) if outs else ()):
            got = eng.load(st, at, 8, ty)
            if not st.eq0(got - w):
                return "result: %r, expected %r" % (st.norm(got), st.norm(w))
        return None
    return f


T = ("and",)


def true():
    return c_ge(P(0))


def check(ctx):
    ctx.level = "proof"
    ctx.explanation = ("Abstract interpretation of the instantiated product types: every element constructed, moved, cloned and destroyed exactly once at its "
                       "own place, accessors return the addressed element, bounds checks dominate every access.")
    mod = harness("prod")
    L = layouts(VERIF + "/harness/prod.cpp")
    toks = lambda l: sorted({o for n, (o, t) in L[l].items() if re.match(r"struct Tok(N<|C)", t)})
    o2, o3 = toks("L_p"), toks("L_u")
    if len(o2) != 2 or len(o3) != 3:
        ctx.fail("layout of Pair/Tuple not recognised: %r %r" % (o2, o3))
        return
    two, three = (lambda: ProdShape(o2, S)), (lambda: ProdShape(o3, S))
    arr = lambda n: (lambda: ProdShape([S * i for i in range(n)], S))
    todo = []
    typed = lambda offs, tys: (lambda: ProdShape(offs, S, tys))
    for p, sh, n in (("p", typed(o2, ["TokN<0>", "TokN<1>"]), 2), ("pc", two, 2), ("pd", two, 2), ("px", two, 2),
                     ("u", typed(o3, ["TokN<0>", "TokN<1>", "TokN<2>"]), 3), ("a", arr(3), 3), ("at", arr(2), 2)):
        todo += [(sh, op) for op in prod_ops(p, n, "ccc")]
    todo += [(two, ctor_op("h_p_ctor", 2, "oo")), (two, ctor_op("h_px_ctor_cc", 2, "cc")), (two, ctor_op("h_px_ctor_cm", 2, "co")),
             (two, ctor_op("h_px_ctor_mc", 2, "oc")), (two, ctor_op("h_px_ctor_mm", 2, "oo")),
             (three, ctor_op("h_u_ctor", 3, "ooo")), (arr(3), ctor_op("h_a_ctor", 3, "ooo")), (arr(3), ctor_op("h_a_ctor_copy", 3, "ccc")),
             (two, Op("h_px_copy", ["O", "C"], {0: lambda a: [Seg(1, "c", g.base, g.pos) for g in a.segs[1]]})),
             (arr(3), Op("h_a_copy", ["O", "C"], {0: lambda a: [Seg(1, "c", g.base, g.pos) for g in a.segs[1]]})),
             (arr(3), Op("h_a_default", ["O"], {0: lambda a: [Seg(1, "d", None, ZERO) for i in range(3)]}))]
    for i in range(2):
        todo += [(two, addr_op("h_p_%sget%d" % (c, i), o2[i])) for c in ("", "c")]
    todo += [(two, addr_op("h_p_first", o2[0])), (two, addr_op("h_p_second", o2[1]))]
    for i in range(3):
        todo += [(three, addr_op("h_u_%sget%d" % (c, i), o3[i])) for c in ("", "c")]
    todo += [(three, Op("h_u_length", ["C"], ret=lambda a, s: P(3))),
             (three, Op("h_u_invoke", ["C"], ret=lambda a, s: P(term("three", *[P(a.base[0]) + o for o in o3], nn=True)))),
             (arr(3), Op("h_a_length", ["C"], ret=lambda a, s: P(3)))]
    todo += [(arr(3), addr_op("h_a_" + f, 0)) for f in ("begin", "cbegin", "data", "cdata")]
    todo += [(arr(3), addr_op("h_a_" + f, 3 * S)) for f in ("end", "cend")]
    for f in ("index", "cindex", "slice", "cslice"):
        todo.append((arr(3), Op("h_a_" + f, ["C", "n"], pre=lambda a, s: c_and(c_ge(a.val[1]), c_ge(2 - a.val[1])),
                                ret=lambda a, s: P(a.base[0]) + a.val[1] * S)))
    for sh, op in todo:
        run_op(ctx, mod, ProdModel, sh(), op, "Product")
    ge1 = lambda n, a: c_ge(n - 1)
    slice_case(ctx, mod, "h_s_index", must(lambda n, a: c_ge(n - 1 - P(a[1])), lambda d, n, a: d + P(a[1]) * S))
    slice_case(ctx, mod, "h_s_front", must(ge1, lambda d, n, a: d))
    slice_case(ctx, mod, "h_s_back", must(ge1, lambda d, n, a: d + (n - 1) * S))
    tr = lambda n, a: true()
    slice_case(ctx, mod, "h_s_begin", must(tr, lambda d, n, a: d))
    slice_case(ctx, mod, "h_s_end", must(tr, lambda d, n, a: d + n * S))
    slice_case(ctx, mod, "h_s_empty", must(tr, lambda d, n, a: c_eq(n)))
    slice_case(ctx, mod, "h_s_length", must(tr, lambda d, n, a: n))
    slice_case(ctx, mod, "h_s_bytes", must(tr, lambda d, n, a: n * S))
    slice_case(ctx, mod, "h_s_sub", must(lambda n, a: c_ge(n - P(a[1]) - P(a[2])), None,
                                         lambda d, n, a: [(P(a[3]), "ptr", d + P(a[1]) * S), (P(a[3]) + 8, "i64", P(a[2]))]))
    slice_case(ctx, mod, "h_s_mindex", must(lambda n, a: c_ge(n - 1 - P(a[1])), lambda d, n, a: d + P(a[1]) * S))
    for f in ("mbegin", "mdata", "data"):
        slice_case(ctx, mod, "h_s_" + f, must(tr, lambda d, n, a: d))
    slice_case(ctx, mod, "h_s_mend", must(tr, lambda d, n, a: d + n * S))
    pair = lambda i, p, l: lambda d, n, a: [(P(a[i]), "ptr", p(d, n, a)), (P(a[i]) + 8, "i64", l(d, n, a))]
    view = pair(1, lambda d, n, a: d, lambda d, n, a: n)
    slice_case(ctx, mod, "h_s_init", must(tr, lambda d, n, a: true()))
    for f in ("const", "clone"):
        slice_case(ctx, mod, "h_s_" + f, must(tr, None, view))
    for f in ("to_bytes", "cto_bytes"):
        slice_case(ctx, mod, "h_s_" + f, must(tr, None, pair(1, lambda d, n, a: d, lambda d, n, a: n * S)))
    for f in ("ctor", "cctor"):
        slice_case(ctx, mod, "h_s_" + f, must(tr, None, pair(3, lambda d, n, a: P(a[1]), lambda d, n, a: P(a[2]))))
    slice_case(ctx, mod, "h_s_none", must(tr, None, pair(1, lambda d, n, a: ZERO, lambda d, n, a: ZERO)))
    # a reference is one address or none (slice_case's data is that address)
    for f in ("deref", "cderef", "arrow", "carrow"):
        slice_case(ctx, mod, "h_r_" + f, lambda eng, st, d, *r: must(lambda n, a: c_ge(d - 1), lambda d, n, a: d)(eng, st, d, *r))
    slice_case(ctx, mod, "h_r_ok", must(tr, lambda d, n, a: c_ge(d - 1)))
    slice_case(ctx, mod, "h_r_ok_none", must(tr, lambda d, n, a: c_ge(P(-1))))
    to = lambda i, w: lambda d, n, a: [(P(a[i]), "ptr", w(d, n, a))]
    slice_case(ctx, mod, "h_r_ctor", must(tr, None, to(2, lambda d, n, a: P(a[1]))))
    for f in ("copy", "move", "assign_copy", "assign_move"):
        slice_case(ctx, mod, "h_r_" + f, must(tr, None, to(1, lambda d, n, a: d)))
    for f in ("move", "assign_move"):
        slice_case(ctx, mod, "h_r_" + f, must(tr, None, to(0, lambda d, n, a: ZERO)))
    slice_case(ctx, mod, "h_r_none", must(tr, None, to(1, lambda d, n, a: ZERO)))
    for f in ("deref_none", "arrow_none"):
        slice_case(ctx, mod, "h_r_" + f, must(lambda n, a: c_ge(P(-1))))
    ctx.floor("operations", ctx.cov.get("operations", 0), 50)
