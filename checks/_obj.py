"""Shared driver of the owner checks (Opt, Box, Rc, Arc)."""
from specs import *
from objs import *

ELEMS = (("Tok", ["HAS_SEED"], False), ("TokC", ["HAS_SEED", "HAS_COPY"], False), ("Triv", ["HAS_COPY"], True))


def run(ctx, which, floor):
    ctx.level = "proof"
    ctx.explanation = ("Abstract interpretation of the instantiated operation's IR, one obligation per (operation, owner state case, path): "
                       "effect on the owned values, exactly-once construction/destruction, exactly-once release, access inside live storage.")
    ctx.assumptions = ["an allocator returns a fresh block, null exactly for zero bytes"]
    for elem, defs, triv in ELEMS:
        defs = ["ELEM=" + elem] + defs
        mod = harness("obj", defs=defs, variant=elem)
        L = layouts(VERIF + "/harness/obj.cpp", defs)
        CL[0] = "o" if triv else "c"
        table = {"o": (lambda: OptShape(L["L_o"], 24), lambda: ContModel(triv), "Opt"),
                 "b": (lambda: BoxShape(L["L_b"], 24), lambda: ContModel(triv), "Box"),
                 "r": (lambda: RcShape(L["L_r"], L["L_rd"], 24, False), lambda: RcModel(triv, 0, False), "Rc"),
                 "q": (lambda: RcShape(L["L_q"], L["L_qd"], 24, True), lambda: RcModel(triv, 0, True), "Arc")}
        for p in which:
            mkshape, mk, name = table[p]
            shape = mkshape()
            fv = getattr(shape, "f_val", 0)
            for op in obj_ops(p, 24, "HAS_SEED" in defs, "HAS_COPY" in defs, triv, fv):
                run_op(ctx, mod, mk, shape, op, "%s<%s>" % (name, elem))
    ctx.floor("operations", ctx.cov.get("operations", 0), floor)
