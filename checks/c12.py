"""Strings and views denote exactly their bytes."""
from strs import *


def custom(ctx, mod, shape, name, kinds, judge):
    fn = mod.fns.get(name)
    if fn is None:
        return ctx.fail("harness function %s vanished" % name)
    model = StrModel()
    eng = Engine(mod, model)
    op = Op(name, kinds)
    tag = "String." + name[2:]
    for st, a, lab in cases(eng, model, shape, op, fn):
        try:
            for o in eng.run(fn, st):
                s = o[1]
                vs = all_viols(s)
                if vs:
                    ctx.bad(tag, "%s:%s" % (tag, vs[0][1]), "%s at %s\n  rule %s: %s\n  case %s" % (tag, src_of(vs[0][3]), vs[0][1], vs[0][2], lab))
                    continue
                if o[0] == "die":
                    ctx.bad(tag, tag + ":dies", "%s terminates on valid input (case %s)" % (tag, lab))
                    continue
                res = []
                if o[2] is not None:
                    c = eng.tocond(o[2])
                    for v, cc in ((True, c), (False, c_not(c))):
                        res += [(x, v) for x in s.assume(cc)]
                else:
                    res = [(s, None)]
                for x, v in res:
                    pb = judge(eng, x, a, v)
                    if pb:
                        ctx.bad(tag, tag + ":result", "%s: %s\n  case %s, path facts %r" % (tag, pb, lab, x.facts[:14]))
                    else:
                        ctx.ok(tag, lab)
        except AnalysisError as e:
            ctx.undecided(tag, str(e)[:250])
    ctx.count("operations")


def check(ctx):
    ctx.level = "proof"
    ctx.explanation = ("Abstract interpretation of string operations with byte content measures; comparison and path functions are judged on every exit path with the "
                       "facts that all earlier loop iterations established (quantified over the iteration).")
    ctx.assumptions = ["sizes and index sums do not wrap 2^64 (except where bounds are checked)"]
    mod = harness("str")
    L = layouts(VERIF + "/harness/str.cpp")
    CL[0] = "o"
    shape = StrShape(L["L_c"], 1)
    vs = ViewShape(L["L_v"])
    shape.kinds = {"V": vs}
    data = lambda a, i: a.f[i][0]
    cut = lambda a, s: 0
    O = []
    add = O.append
    for op in seq_ops(1, False, False, lambda a, i: a.f[i][2]):
        if op.fn in ("h_ctor", "h_ctor_cap", "h_ctor_move", "h_assign_move", "h_dtor", "h_clone", "h_index", "h_cindex", "h_length", "h_empty"):
            add(op)

    def setlen(a):
        def f(st):
            g = a.segs[0]
            if not g:
                return [Seg(a.val[1], "?", None, ZERO)]
            d = st.decide(c_ge(g[0].n - a.val[1]))
            if d is None:
                raise NeedSplit(c_ge(g[0].n - a.val[1]))
            if d:
                return [Seg(a.val[1], "o", g[0].base, 0)]
            return g + [Seg(a.val[1] - g[0].n, "?", None, ZERO)]
        return f
    add(Op("h_set_length", ["C", "n"], {0: setlen}, pre=lambda a, s: c_ge(a.f[0][2] - a.val[1])))
    view = lambda i, d, n: (lambda a, s: [("view data", P(a.base[i]) + vs.f_data, "ptr", d(a)), ("view length", P(a.base[i]) + vs.f_len, "i64", n(a))])
    add(Op("h_view", ["C", "R"], outs=view(1, lambda a: a.f[0][0], lambda a: a.len(0))))
    insub = lambda a, s: c_and(c_ge(a.val[2] - a.val[1]), c_ge(a.len(0) - a.val[2]))
    add(Op("h_sub", ["C", "n", "n", "R"], pre=insub, outs=view(3, lambda a: a.f[0][0] + a.val[1], lambda a: a.val[2] - a.val[1])))

    def over(txt, n):
        def f(a):
            g = a.segs[0]
            t = txt(a)
            if not g:
                return t
            i, m = a.val[1], n(a)
            return [Seg(i, "o", g[0].base, 0)] + t + [Seg(g[0].n - i - m, "o", g[0].base, i + m)]
        return f
    add(Op("h_write_char", ["C", "n", "n"], {0: over(lambda a: [Seg(1, ("k", a.val[2]), None, ZERO)], lambda a: P(1))},
           pre=lambda a, s: c_ge(a.len(0) - 1 - a.val[1]), ret=lambda a, s: a.val[1] + 1))
    for f, k in (("h_write_string", "C"), ("h_write_view", "V")):
        add(Op(f, ["C", "n", k], {0: over(lambda a: a.segs[2], lambda a: a.len(2))},
               pre=lambda a, s: c_ge(a.len(0) - a.val[1] - a.len(2)), ret=lambda a, s: a.val[1] + a.len(2)))
    for f in ("h_begin", "h_cbegin", "h_data", "h_cdata"):
        add(Op(f, ["C"], ret=lambda a, s: a.f[0][0]))
    for f in ("h_end", "h_cend"):
        add(Op(f, ["C"], ret=lambda a, s: a.f[0][0] + a.len(0)))
    add(Op("h_capacity", ["C"], ret=lambda a, s: a.f[0][2]))
    nul = [Seg(1, ("k", ZERO), None, ZERO)]
    for p, k in (("h_", "C"), ("h_v_", "V")):
        add(Op(p + "terminate", ["O", k], {0: lambda a: a.segs[1] + nul}))
        add(Op(p + "append", ["O", k, k], {0: lambda a: a.segs[1] + a.segs[2]}))
    add(Op("h_v_string", ["O", "V"], {0: lambda a: a.segs[1]}))
    add(Op("h_v_sub", ["V", "n", "n", "R"], pre=insub, outs=view(3, lambda a: a.f[0][0] + a.val[1], lambda a: a.val[2] - a.val[1])))
    add(Op("h_v_index", ["V", "n"], pre=lambda a, s: c_ge(a.len(0) - 1 - a.val[1]), ret=lambda a, s: a.f[0][0] + a.val[1]))
    for f, w in (("begin", lambda a, s: a.f[0][0]), ("data", lambda a, s: a.f[0][0]), ("end", lambda a, s: a.f[0][0] + a.len(0)),
                 ("length", lambda a, s: a.len(0)), ("empty", lambda a, s: c_eq(a.len(0)))):
        add(Op("h_v_" + f, ["V"], ret=w))
    add(Op("h_v_clone", ["V", "R"], outs=view(1, lambda a: a.f[0][0], lambda a: a.len(0))))
    for op in O:
        run_op(ctx, mod, StrModel, shape, op, "String")
    two = lambda a: [(a.f[i][0], a.len(i)) for i in (0, 1)]
    for n, ks in (("vv", "VV"), ("sv", "CV"), ("vs", "VC"), ("ss", "CC")):
        custom(ctx, mod, shape, "h_eq_" + n, list(ks), lambda e, s, a, v: decide_eq(s, v, *two(a)))
        if n in ("vv", "ss"):
            custom(ctx, mod, shape, "h_lt_" + n, list(ks), lambda e, s, a, v: decide_lt(s, v, *two(a)))
    for f, seps, rem in (("suffix", (47, 92), False), ("extension", (46, 47, 92), False), ("remove_suffix", (47, 92), True)):
        def judge(e, s, a, v, seps=seps, rem=rem):
            od, on = vs.fields(e, s, a.base[1])
            return decide_suffix(s, a.f[0][0], a.len(0), od, on, seps, rem)
        custom(ctx, mod, shape, "h_v_" + f, ["V", "R"], judge)
    ctx.floor("operations", ctx.cov.get("operations", 0), 45)
