"""Variant: the index always names the alternative that is stored."""
from specs import *
from objs import *


def check(ctx):
    ctx.level = "proof"
    ctx.explanation = ("Abstract interpretation of variants of 1, 3, 8 and 9 alternatives: for each stored alternative every operation must act on that "
                       "alternative's object, keep index and object type in step, and construct/destroy each object exactly once.")
    ctx.assumptions = ["no self-assignment"]
    mod = harness("variant")
    L = layouts(VERIF + "/harness/variant.cpp")
    for p, n, fr in (("v1", 1, (0,)), ("v3", 3, (0, 1, 2)), ("v8", 8, (0, 5, 7)), ("v9", 9, (0, 4, 8))):
        for op in variant_ops(p, fr):
            run_op(ctx, mod, VariantModel, VariantShape(L["L_" + p], 24, n), op, "Variant%d" % n)
    ctx.floor("operations", ctx.cov.get("operations", 0), 50)
