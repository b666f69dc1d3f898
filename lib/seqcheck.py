"""Functional contracts of container operations, checked on every abstract path of every input case."""
from seq import *
import copy


class A:
    """the symbolic arguments of one case"""

    def __init__(self):
        self.base, self.segs, self.val, self.f, self.kind = {}, {}, {}, {}, {}

    def now(self, i, st):
        """the container's fields in state st"""
        return self.shape.fields(self.eng, st, self.base[i])

    def handles(self, b):
        return sum(1 for i in self.segs if self.segs[i] and self.segs[i][0].base is b)

    def len(self, i):
        n = ZERO
        for g in self.segs[i]:
            n = n + g.n
        return n


class Op:
    def __init__(self, fn, args, segs=None, pre=None, ret=None, dead=(), moved=(), al=None, note="", outs=None, req=None, alts=()):
        self.fn, self.args, self.segs, self.pre, self.ret = fn, args, segs or {}, pre, ret
        self.dead, self.moved, self.note = set(dead), set(moved), note
        self.al = al or {}
        self.outs, self.req = outs, req
        self.alts = alts          # other acceptable outcomes, each a `segs`


def eseg(shape, t):
    """content of an element argument; multiset shapes do not tell elements apart"""
    return Seg(1, shape.anon, None, ZERO) if getattr(shape, "anon", None) else Seg(1, "o", t, 0)


def src_of(st_events_inst):
    return ir.where(st_events_inst) if st_events_inst else "?"


def cases(eng, model, shape, op, fn):
    """initial states for an operation"""
    st = State()
    a0 = A()
    a0.eng, a0.shape = eng, shape
    work = [(st, a0, "")]
    for i, kind in enumerate(op.args):
        nxt = []
        for st, a, lab in work:
            ir_arg = fn.args[i]
            if kind[0] == "=":      # the same object as an earlier argument
                st, a2 = st.copy(), copyA(a)
                st.env[i] = st.env[int(kind[1:])]
                nxt.append((st, a2, lab))
                continue
            t = fresh("arg%d" % i, ptr=ir_arg["ty"] == "ptr", nn=True)
            st, a2 = st.copy(), copyA(a)
            st.env[i] = P(t)
            a2.base[i] = t
            a2.val[i] = P(t)
            a2.kind[i] = kind
            if t.ptr:
                st = st.assume1(c_ge(P(t) - 1)).copy()
            sh = getattr(shape, "kinds", {}).get(kind)
            if ir_arg["ty"] == "ptr":
                st.ts[("object", t)] = True
            if kind == "C" or sh:
                sh = sh or shape
                for l, s, segs in sh.init(eng, st, t, model, op.al.get(i, "0")):
                    a3 = copyA(a2)
                    a3.segs[i] = segs
                    a3.f[i] = sh.fields(eng, s, t)
                    nxt.append((s, a3, lab + ("/" if lab else "") + l))
            elif kind == "E":
                for k, d in expected(model.S, t, [eseg(shape, t)]).items():
                    st.meas[k] = d
                nxt.append((st, a2, lab))
            else:
                nxt.append((st, a2, lab))
        work = nxt
    if op.req is not None:
        work = [(s, a, lab) for st, a, lab in work for c in [op.req(a)] for s in st.assume(c)]
    return work


def copyA(a):
    b = A()
    b.eng, b.shape = a.eng, a.shape
    for n in ("base", "segs", "val", "f", "kind"):
        setattr(b, n, dict(getattr(a, n)))
    return b


def run_op(ctx, mod, mk_model, shape, op, tag, rules=None):
    """decide one operation; every (input case, path) is one obligation"""
    fn = mod.fns.get(op.fn)
    if fn is None:
        ctx.fail("harness function %s vanished" % op.fn)
        return
    name0 = "%s.%s" % (tag, op.fn[2:])
    model = mk_model()
    eng = Engine(mod, model)
    try:
        todo = cases(eng, model, shape, op, fn)
    except AnalysisError as e:
        ctx.undecided(name0, str(e))
        return
    for st, a, lab in todo:
        name = name0 + ("[%s]" % lab if lab else "")
        try:
            outs = eng.run(fn, st)
        except (AnalysisError, RecursionError) as e:
            ctx.undecided(name, str(e)[:300])
            continue
        nret = 0
        for o in outs:
            s = o[1]
            vs = all_viols(s)
            if vs:
                for v in vs[:3]:
                    ctx.bad(name, "%s:%s" % (name0, v[1]), "%s at %s\n  rule %s: %s\n  case %s, path facts %r" % (
                        name0, src_of(v[3]), v[1], v[2], lab, s.facts[:12]))
                continue
            if o[0] == "die":
                if op.pre is not None:
                    c = op.pre(a, s)
                    if s.decide(c) is False:
                        ctx.ok(name, "terminates, precondition violated")
                        continue
                    # the precondition might hold on part of this path
                    if all(not x for x in [s.assume(c)]):
                        ctx.ok(name, "terminates, precondition violated")
                        continue
                ctx.bad(name, "%s:dies" % name0, "%s terminates the program on valid input\n  case %s, path facts %r" % (name0, lab, s.facts[:12]))
                continue
            nret += 1
            if op.pre is not None:
                c = op.pre(a, s)
                if s.decide(c) is not True and s.assume(c_not(c)):
                    ctx.bad(name, "%s:unchecked" % name0, "%s continues although its precondition %r is not established\n  case %s, path facts %r" % (
                        name0, c, lab, s.facts[:12]))
                    continue
            try:
                rv, s0 = (o[2] if len(o) > 2 else None), s.copy() if op.alts else s
                probs = finish_path(eng, model, shape, op, a, s, rv)
                for alt in op.alts:
                    if any(p is not None for _, p in probs):
                        op2 = copy.copy(op)
                        op2.segs = alt
                        other = finish_path(eng, model, shape, op2, a, s0.copy(), rv)
                        if all(p is None for _, p in other):
                            probs = other
            except AnalysisError as e:
                ctx.undecided(name, str(e)[:300])
                continue
            bad = [(x, p) for x, p in probs if p is not None]
            if not bad:
                ctx.ok(name, "%d final states agree" % len(probs))
            for x, p in bad[:2]:
                ctx.bad(name, "%s:%s" % (name0, p.split(":")[0][:40].split(" is ")[0]), "%s: %s\n  case %s, path facts %r" % (name0, p, lab, x.facts[:14]))
        if not outs:
            ctx.undecided(name, "no feasible path")
    ctx.count("operations")
    ctx.count("instructions interpreted", eng.stats["insts"])
    ctx.count("loops summarised", eng.stats["loops"])


def finish_path(eng, model, shape, op, a, st, rv, depth=0):
    """[(state, problem|None)]"""
    res = []
    try:
        return finish_path1(eng, model, shape, op, a, st, rv)
    except NeedSplit as e:
        if depth > 12:
            raise AnalysisError("the expectation splits too often: %r" % (e.cond,))
        for c in (e.cond, c_not(e.cond)):
            for s in st.assume(c):
                res += finish_path(eng, model, shape, op, a, s.copy(), rv, depth + 1)
        return res


def finish_path1(eng, model, shape, op, a, st, rv):
    res = []
    if op.ret is not None:
        want = op.ret(a, st)
        got = rv
        if is_cond(want):
            got = eng.tocond(got)
            # agreement of two conditions: both ways
            for c1, c2 in ((want, c_not(got)), (c_not(want), got)):
                for s in st.assume(c1):
                    if s.assume(c2):
                        return [(s, "returned value differs: %r, expected %r" % (got, want))]
        else:
            if isinstance(got, Poly) and not st.eq0(got - want):
                # only where they differ
                d = st.norm(got - want)
                if st.assume(c_ne(d)):
                    return [(st, "returned value is %r, expected %r" % (st.norm(got), st.norm(want)))]
    for what, at, ty, want in (op.outs(a, st) if op.outs else ()):
        got = eng.load(st, at, 8, ty)
        if isinstance(got, Poly) and isinstance(want, Poly) and not st.eq0(got - want):
            d = st.norm(got - want)
            if st.assume(c_ne(d)):
                return [(st, "%s is %r, expected %r" % (what, st.norm(got), st.norm(want)))]
    # final shape of every surviving container
    states = [(st, [], [])]      # (state, expected intervals, owners)
    for i, kind in enumerate(op.args):
        if kind in ("C", "O") and i not in op.dead:
            f = op.segs.get(i)
            nxt = []
            for s, ex, ow in states:
                if kind == "O" and f is None:
                    nxt.append((s, ex, ow))
                    continue
                segs = f(a) if f else a.segs[i]
                if callable(segs):
                    segs = segs(s)
                for s2, pb, owner, iv in shape.final(eng, s, a.base[i], segs, op.al.get(i, "0")):
                    if pb:
                        res.append((s2, "argument %d: %s" % (i, pb)))
                    else:
                        nxt.append((s2, ex + iv, ow + ([owner] if owner is not None else [])))
            states = nxt
        elif kind in getattr(shape, "kinds", {}) and i not in op.dead:
            states = [(s, ex + shape.kinds[kind].keep(model, a.segs[i]), ow) for s, ex, ow in states]
        elif kind == "E" and i not in op.moved:
            states = [(s, ex + ivals(model.S, a.base[i], eseg(shape, a.base[i]), ZERO), ow) for s, ex, ow in states]
    for s, ex, ow in states:
        if hasattr(shape, "close"):
            res += shape.close(eng, model, s, ex, ow)
        else:
            res += close_state(model, s, ex, ow)
    return res
