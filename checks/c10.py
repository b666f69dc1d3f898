"""Heap: a multiset of elements whose top is never greater than any of them."""
from specs import *
from heaporder import *


def multiset_ops(S):
    h = lambda n: [Seg(n, "h", None, ZERO)]
    n1 = lambda a, s: c_ge(a.len(0) - 1)
    O = [Op("h_ctor", ["O"], {0: lambda a: []}), Op("h_ctor_cap", ["O", "n"], {0: lambda a: []}),
         Op("h_ctor_move", ["O", "C"], {0: lambda a: a.segs[1], 1: lambda a: []}),
         Op("h_assign_move", ["C", "C"], {0: lambda a: a.segs[1], 1: lambda a: []}),
         Op("h_dtor", ["C"], dead=[0]), Op("h_clear", ["C"], {0: lambda a: []}),
         Op("h_reserve", ["C", "n"]), Op("h_grow", ["C"]),
         Op("h_push", ["C", "E"], {0: lambda a: h(a.len(0) + 1)}, moved=[1]),
         Op("h_emplace_move", ["C", "E"], {0: lambda a: h(a.len(0) + 1)}, moved=[1]),
         Op("h_pop", ["C"], {0: lambda a: h(a.len(0) - 1)}, pre=n1),
         Op("h_back", ["C"], pre=n1, ret=lambda a, s: a.f[0][0]), Op("h_cback", ["C"], pre=n1, ret=lambda a, s: a.f[0][0]),
         Op("h_empty", ["C"], ret=lambda a, s: c_eq(a.len(0))),
         Op("h_full", ["C"], ret=lambda a, s: c_eq(a.len(0) - a.f[0][2])), Op("h_length", ["C"], ret=lambda a, s: a.len(0)),
         Op("h_init3", ["O", "E", "E", "E"], {0: lambda a: h(3)}, moved=[1, 2, 3]),
         Op("h_clone", ["O", "C"], {0: lambda a: a.segs[1]})]
    for f in ("h_begin", "h_cbegin"):
        O.append(Op(f, ["C"], ret=lambda a, s: a.f[0][0]))
    for f in ("h_end", "h_cend"):
        O.append(Op(f, ["C"], ret=lambda a, s: a.f[0][0] + a.len(0) * S))
    return O


class TwoShape(VecShape):
    """a heap of exactly two elements, told apart"""

    def init(self, *a, **k):
        out = []
        for lab, st, segs in VecShape.init(self, *a, **k):
            l = self.length(a[0], st, a[2])
            out += [("two elements", s, segs) for s in st.assume(c_eq(l - 2)) if segs]
        return out


def check(ctx):
    ctx.level = "proof"
    ctx.explanation = ("Two abstract interpretations of the instantiated heap. Multiset: every operation keeps, adds or removes exactly the elements it should, each constructed and destroyed once. "
                       "Order: one generic iteration of each sifting loop is a swap along a violated parent/child edge and the loop ends only where no edge is violated (all weak orders of the compared elements are enumerated).")
    ctx.assumptions = ["sizes and index sums do not wrap 2^64", "the element order is a strict weak order", "arguments do not alias the heap's own elements"]
    for elem, triv in (("Tok", False), ("TokC", False), ("Triv", True)):
        defs = ["ELEM=" + elem]
        mod = harness("heap", defs=defs, variant=elem)
        lay = layouts(VERIF + "/harness/heap.cpp", defs)["L_c"]
        shape = VecShape(lay, 24)
        shape.anon = "h"
        for op in multiset_ops(24):
            run_op(ctx, mod, lambda: ContModel(triv), shape, op, "Heap<%s>" % elem)
        # which element leaves: the top, and not another one
        run_op(ctx, mod, lambda: ContModel(triv), TwoShape(lay, 24),
               Op("h_pop", ["C"], {0: lambda a: [Seg(1, g.kind, g.base, g.pos + 24) for g in a.segs[0]]}), "Heap<%s> of two" % elem)
        check_order(ctx, mod, VecShape(lay, 24), triv, "Heap<%s>" % elem)
    ctx.floor("operations", ctx.cov.get("operations", 0), 60)
    ctx.floor("sifting loops", ctx.cov.get("sifting loops", 0), 9)
