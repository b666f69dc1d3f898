from seqcheck import *


def slot(a, i, st, S, n):
    """address of logical element n of container argument i"""
    off = None
    p = ZERO
    pos = n
    for g in a.segs[i]:
        d = st.decide(c_ge(g.n - 1 - pos))
        if d is None:
            # the caller's path decides; use the condition that holds
            raise NeedSplit(c_ge(g.n - 1 - pos))
        if d:
            return P(g.base) + g.pos + pos * S
        pos = pos - g.n
    raise AnalysisError("no such element")


def S1(kind, base, pos=0, n=1):
    return Seg(n, kind, base, pos)


def seq_ops(S, has_default, has_copy, cap_of):
    O = []
    same = {}
    add = O.append
    data = lambda a, i: a.f[i][0]
    add(Op("h_ctor", ["O"], {0: lambda a: []}))
    add(Op("h_ctor_cap", ["O", "n"], {0: lambda a: []}))
    add(Op("h_ctor_move", ["O", "C"], {0: lambda a: a.segs[1], 1: lambda a: []}))
    add(Op("h_assign_move", ["C", "C"], {0: lambda a: a.segs[1], 1: lambda a: []}))
    add(Op("h_dtor", ["C"], dead=[0]))
    add(Op("h_clear", ["C"], {0: lambda a: []}))
    add(Op("h_reserve", ["C", "n"]))
    add(Op("h_grow", ["C"]))
    add(Op("h_push", ["C", "E"], {0: lambda a: a.segs[0] + [S1("o", a.base[1])]}, moved=[1]))
    add(Op("h_emplace_move", ["C", "E"], {0: lambda a: a.segs[0] + [S1("o", a.base[1])]}, moved=[1]))
    add(Op("h_front", ["C"], pre=lambda a, s: c_ge(a.len(0) - 1), ret=lambda a, s: slot(a, 0, s, S, ZERO)))
    add(Op("h_cfront", ["C"], pre=lambda a, s: c_ge(a.len(0) - 1), ret=lambda a, s: slot(a, 0, s, S, ZERO)))
    add(Op("h_back", ["C"], pre=lambda a, s: c_ge(a.len(0) - 1), ret=lambda a, s: slot(a, 0, s, S, a.len(0) - 1)))
    add(Op("h_cback", ["C"], pre=lambda a, s: c_ge(a.len(0) - 1), ret=lambda a, s: slot(a, 0, s, S, a.len(0) - 1)))
    for f in ("h_index", "h_cindex"):
        add(Op(f, ["C", "n"], pre=lambda a, s: c_ge(a.len(0) - 1 - a.val[1]), ret=lambda a, s: slot(a, 0, s, S, a.val[1])))
    add(Op("h_empty", ["C"], ret=lambda a, s: c_eq(a.len(0))))
    add(Op("h_full", ["C"], ret=lambda a, s: c_eq(a.len(0) - cap_of(a, 0))))
    add(Op("h_length", ["C"], ret=lambda a, s: a.len(0)))
    add(Op("h_clone", ["O", "C"], {0: lambda a: [Seg(g.n, CL[0], g.base, g.pos) for g in a.segs[1]]}))
    add(Op("h_init3", ["O", "E", "E", "E"], {0: lambda a: [S1("o", a.base[i]) for i in (1, 2, 3)]}, moved=[1, 2, 3]))
    if has_copy:
        add(Op("h_push_copy", ["C", "E"], {0: lambda a: a.segs[0] + [S1(CL[0], a.base[1])]}))
    return O


CL = ["c"]


def drop_front(S, segs, st):
    """the sequence without its first element"""
    segs = list(segs)
    while segs:
        g = segs[0]
        d = st.decide(c_ge(g.n - 1))
        if d is None:
            raise NeedSplit(c_ge(g.n - 1))
        if d:
            return [Seg(g.n - 1, g.kind, g.base, g.pos + S)] + segs[1:]
        segs = segs[1:]
    return []


def drop_back(segs, st):
    segs = list(segs)
    while segs:
        g = segs[-1]
        d = st.decide(c_ge(g.n - 1))
        if d is None:
            raise NeedSplit(c_ge(g.n - 1))
        if d:
            return segs[:-1] + [Seg(g.n - 1, g.kind, g.base, g.pos)]
        segs = segs[:-1]
    return []


def fit(segs, n, kind, st):
    """the sequence cut or default-extended to length n"""
    have = ZERO
    for g in segs:
        have = have + g.n
    d = st.decide(c_ge(n - have))
    if d is None:
        raise NeedSplit(c_ge(n - have))
    if d:
        return segs + [Seg(n - have, kind, None, ZERO)]
    assert len(segs) == 1
    g = segs[0]
    return [Seg(n, g.kind, g.base, g.pos)]


def vec_ops(S, has_default, has_copy, trivial):
    O = seq_ops(S, has_default, has_copy, lambda a, i: a.f[i][2])
    add = O.append
    last = lambda a, s: a.now(0, s)[0] + a.len(0) * S
    one = lambda a: a.segs[0] + [S1("o", a.base[1])]
    add(Op("h_pop", ["C"], {0: lambda a: lambda st: drop_back(a.segs[0], st)}, pre=lambda a, s: c_ge(a.len(0) - 1)))
    add(Op("h_assign_self", ["C"], {0: lambda a: []}, alts=[{0: lambda a: a.segs[0]}]))
    add(Op("h_push_ref", ["C", "E"], {0: one}, moved=[1], ret=last))
    add(Op("h_emplace_move", ["C", "E"], {0: one}, moved=[1], ret=last))
    add(Op("h_capacity", ["C"], ret=lambda a, s: a.f[0][2]))
    add(Op("h_bytes", ["C"], ret=lambda a, s: a.len(0) * S))
    for f in ("h_begin", "h_cbegin", "h_data", "h_cdata"):
        add(Op(f, ["C"], ret=lambda a, s: a.f[0][0]))
    for f in ("h_end", "h_cend"):
        add(Op(f, ["C"], ret=lambda a, s: a.f[0][0] + a.len(0) * S))
    add(Op("h_slice", ["C", "R"], outs=lambda a, s: [("slice data", P(a.base[1]), "ptr", a.f[0][0]), ("slice length", P(a.base[1]) + 8, "i64", a.len(0))]))
    add(Op("h_cslice", ["C", "R"], outs=lambda a, s: [("slice data", P(a.base[1]), "ptr", a.f[0][0]), ("slice length", P(a.base[1]) + 8, "i64", a.len(0))]))
    add(Op("h_slice_index", ["C", "n"], pre=lambda a, s: c_ge(a.len(0) - 1 - a.val[1]), ret=lambda a, s: slot(a, 0, s, S, a.val[1])))
    if has_default:
        dk = "d"
        add(Op("h_make", ["O", "n"], {0: lambda a: [Seg(a.val[1], dk, None, ZERO)]}))
        add(Op("h_resize", ["C", "n"], {0: lambda a: lambda st: fit(a.segs[0], a.val[1], dk, st)}))
        add(Op("h_extend", ["C", "n"], {0: lambda a: lambda st: fit(a.segs[0], a.len(0) + a.val[1], dk, st)}))
    if has_copy:
        add(Op("h_push_copy_self", ["C", "n"], {0: lambda a: a.segs[0] + [Seg(1, CL[0], a.segs[0][0].base, a.val[1] * S)]},
               pre=lambda a, s: c_ge(a.len(0) - 1 - a.val[1])))
    return O


def queue_ops(S, has_default, has_copy, trivial):
    O = seq_ops(S, has_default, has_copy, lambda a, i: a.f[i][3])
    add = O.append
    add(Op("h_pop", ["C"], {0: lambda a: lambda st: drop_front(S, a.segs[0], st)}, pre=lambda a, s: c_ge(a.len(0) - 1)))
    for f in ("h_penultimate", "h_cpenultimate"):
        add(Op(f, ["C"], pre=lambda a, s: c_ge(a.len(0) - 2), ret=lambda a, s: slot(a, 0, s, S, a.len(0) - 2)))
    for f in ("h_iter", "h_citer"):
        add(Op(f, ["C", "n"], req=lambda a: c_and(c_ge(a.val[1]), c_ge(a.len(0) - 1 - a.val[1])), ret=lambda a, s: slot(a, 0, s, S, a.val[1])))
    add(Op("h_iter_end", ["C", "n"], ret=lambda a, s: c_eq(a.len(0) - a.val[1])))
    return O


def obj_ops(p, S, has_seed, has_copy, trivial, f_val):
    """p: o optional, b box, r counted, q atomically counted.  f_val: offset of the content in its storage"""
    O = []
    add = O.append
    one = lambda i: (lambda a: [S1("o", a.base[i])])
    seed = lambda a: [Seg(1, ("s", P(1)), None, ZERO)]
    n1 = lambda a, s: c_ge(a.len(0) - 1)
    h = "h_%s_" % p
    content = lambda a, s: (P(a.segs[0][0].base) + f_val if a.segs[0] else ZERO)
    add(Op(h + "ctor", ["O"], {0: lambda a: []}))
    add(Op(h + "ctor_value", ["O", "E"], {0: one(1)}, moved=[1]))
    if p == "o":
        # a moved-from optional keeps a moved-from shell
        mv = lambda a: [Seg(1, "m", None, ZERO)] if a.segs[1] else []
    else:
        mv = lambda a: []
    add(Op(h + "ctor_move", ["O", "C"], {0: lambda a: a.segs[1], 1: mv}))
    add(Op(h + "assign_move", ["C", "C"], {0: lambda a: a.segs[1], 1: mv}))
    add(Op(h + "assign_self", ["C"], {0: lambda a: []}, alts=[{0: lambda a: a.segs[0]}]))
    add(Op(h + "dtor", ["C"], dead=[0]))
    for f in ("deref", "cderef", "arrow", "carrow"):
        add(Op(h + f, ["C"], pre=n1, ret=content))
    add(Op(h + "ok", ["C"], ret=lambda a, s: c_eq(a.len(0) - 1)))
    clone = lambda a: [Seg(g.n, CL[0], g.base, g.pos) for g in a.segs[1]]
    if p == "o":
        add(Op(h + "assign_value", ["C", "E"], {0: one(1)}, moved=[1]))
        add(Op(h + "emplace", ["C", "E"], {0: one(1)}, moved=[1]))
        add(Op(h + "clear", ["C"], {0: lambda a: []}))
        add(Op(h + "clone", ["O", "C"], {0: clone}))
        add(Op(h + "value_or", ["C", "E"], ret=lambda a, s: content(a, s) if a.segs[0] else P(a.base[1])))
    if p == "b":
        add(Op(h + "make", ["O", "E"], {0: one(1)}, moved=[1]))
        add(Op(h + "clone", ["O", "C"], {0: clone}))
        add(Op(h + "emplace", ["C", "E"], {0: one(1)}, moved=[1]))
    if p in "rq":
        add(Op(h + "make", ["O", "E"], {0: one(1)}, moved=[1]))
        add(Op(h + "dup", ["O", "C"], {0: lambda a: a.segs[1]}))
        add(Op(h + "clear", ["C"], {0: lambda a: []}))
        add(Op(h + "from_this", ["O", "C"], {0: lambda a: a.segs[1]}, pre=lambda a, s: c_ge(a.len(1) - 1)))
        add(Op(h + "assign_dup", ["C", "C"], {0: lambda a: a.segs[1]}))
        add(Op(h + "refs", ["C"], ret=lambda a, s: (s.ts[("ext", a.segs[0][0].base)] + a.handles(a.segs[0][0].base)) if a.segs[0] else ZERO))
    if has_seed:
        add(Op(h + "ctor_args", ["O"], {0: seed}))
        if p in "brq":
            add(Op(h + "make_args", ["O"], {0: seed}))
        if p in "ob":
            add(Op(h + "emplace_args", ["C"], {0: seed}))
    return O
