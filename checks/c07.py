"""Function: a type-erased closure is called, moved and destroyed as the closure it was made from."""
from specs import *
from objs import *


def check(ctx):
    ctx.level = "proof"
    ctx.explanation = ("Abstract interpretation of the type-erased callable for small, large and trivially copied closures; the operation tables are resolved "
                       "from the constants the constructors store, so every indirect call is followed into its real target.")
    mod = harness("function")
    L = layouts(VERIF + "/harness/function.cpp")
    shape = FnShape(mod, L["L_c"], L["L_f0"], L["L_f1"], 24)
    for op in fn_ops():
        run_op(ctx, mod, FnModel, shape, op, "Function")
    ctx.floor("operations", ctx.cov.get("operations", 0), 10)
