from checks._obj import run


def check(ctx):
    run(ctx, "rq", 100)
