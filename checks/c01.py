"""Vec is a sequence: every operation has exactly its sequence effect, on every path."""
from specs import *

ELEMS = (("Tok", ["HAS_DEFAULT"], False), ("TokC", ["HAS_DEFAULT", "HAS_COPY"], False), ("Triv", ["HAS_DEFAULT", "HAS_COPY"], True))


def check(ctx):
    ctx.level = "proof"
    ctx.explanation = ("Abstract interpretation of the instantiated container's IR over polyhedra facts and additive content "
                       "measures; every (operation, input case, path) is one obligation against the sequence contract.")
    ctx.assumptions = ["sizes and index sums do not wrap 2^64", "an allocator returns a fresh block, null exactly for zero bytes",
                       "reference arguments of mutating operations do not alias the container's own elements unless stated"]
    for elem, defs, triv in ELEMS:
        defs = ["ELEM=" + elem] + defs
        mod = harness("vec", defs=defs, variant=elem)
        shape = VecShape(layouts(VERIF + "/harness/vec.cpp", defs)["L_c"], 24)
        CL[0] = "o" if triv else "c"
        for op in vec_ops(24, True, "HAS_COPY" in defs, triv):
            run_op(ctx, mod, lambda: ContModel(triv), shape, op, "Vec<%s>" % elem)
    ctx.floor("operations", ctx.cov.get("operations", 0), 110)
