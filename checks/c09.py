"""Stack is last-in first-out."""
from specs import *


def check(ctx):
    ctx.level = "proof"
    ctx.explanation = "Abstract interpretation of the instantiated stack: every (operation, input case, path) against the sequence contract with the top at the end."
    ctx.assumptions = ["sizes and index sums do not wrap 2^64", "reference arguments do not alias the container's own elements"]
    for elem, defs, triv in (("Tok", [], False), ("TokC", ["HAS_COPY"], False), ("Triv", ["HAS_COPY"], True)):
        defs = ["ELEM=" + elem] + defs
        mod = harness("stack", defs=defs, variant=elem)
        shape = VecShape(layouts(VERIF + "/harness/stack.cpp", defs)["L_c"], 24)
        CL[0] = "o" if triv else "c"
        for op in vec_ops(24, False, "HAS_COPY" in defs, triv):
            if op.fn in mod.fns:
                run_op(ctx, mod, lambda: ContModel(triv), shape, op, "Stack<%s>" % elem)
    ctx.floor("operations", ctx.cov.get("operations", 0), 60)
