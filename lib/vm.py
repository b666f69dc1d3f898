"""Running the operations of harness/vmath.cpp in exact arithmetic and comparing with formulas."""
from build import *
from flow import *

NAMES = "xyzwv"


class Bench:
    def __init__(self, ctx):
        self.ctx = ctx
        self.mod = harness("vmath")
        self.n = 0
        self.insts = 0
        self.branches = 0

    def op(self, fn, spec, ins, out, what, size=4, iw=32, known=None):
        """h_fn applied to the inputs; out: list of (object, expected components).  ins: list of
        (name, count) for objects whose components are symbols; spec(world, inputs) gives
        {object: [components]} or {"ret": bool}; objects spec does not mention keep their values."""
        f = self.mod.fns.get("h_" + fn)
        ctx = self.ctx
        if f is None:
            ctx.fail("operation h_%s is missing" % fn)
            return
        A = Alg()
        fails, info = [], {}

        def body(w):
            fl = Flow(self.mod, w)
            fl.iw = iw
            args, comps = [], {}
            for nm, k in ins + [(n, 0) for n in out]:
                if k == 1:
                    names = [nm]
                else:
                    names = ["%s%d" % (nm, i) for i in range(k)]
                cells = [A.atom(x) for x in names]
                args.append(fl.obj(nm, {size * i: (size, c) for i, c in enumerate(cells)}))
                comps[nm] = cells
            if known:
                known(w, comps)
            fl.wrote = []
            r = fl.run(f, args)
            info["insts"] = max(info.get("insts", 0), fl.insts)
            if fl.trap:
                fails.append("stops at %s when %s" % (fl.trap, "; ".join(w.log) or "always"))
                return
            got = {nm: {o: v for o, (s, v) in fl.mem[nm].items()} for nm, _ in ins}
            lift = lambda v: fl.A.const(sx(v, 32)) if isinstance(v, int) else v
            comps["#"] = {nm: [lift(v) for o, (s, v) in sorted(fl.mem[nm].items())] for nm in [n for n, _ in ins] + list(out)}
            want = spec(w, comps)
            for t in want.pop("fails", []):
                fails.append(t + ((" when " + "; ".join(w.log)) if w.log else ""))
            when = lambda: (" when " + "; ".join(w.log)) if w.log else ""
            if "ret" in want:
                if int(bool(r & 1)) != int(bool(want["ret"])):
                    fails.append("returns %s, not %s%s" % (bool(r & 1), bool(want["ret"]), when()))
            for nm, k in ins:
                exp = want.get(nm, comps[nm])
                for i, e in enumerate(exp):
                    g = got[nm].get(size * i)
                    if not self.same(fl, g, e, w):
                        fails.append("leaves %s[%d] = %s, not %s%s" % (nm, i, g, e, when()))
            for nm in out:
                for i, e in enumerate(want.get(nm, ())):
                    g = fl.mem[nm].get(size * i)
                    if g is None or g[0] != size or not self.same(fl, g[1], e, w):
                        fails.append("component %d is %s, not %s%s" % (i, g and str(g[1])[:200], str(e)[:200], when()))
        name = "%s: %s" % (fn, what)
        try:
            n = explore(A, body)
        except AnalysisError as e:
            ctx.undecided(name, str(e))
            return
        self.n += 1
        self.branches += n
        self.insts += info.get("insts", 0)
        if fails:
            ctx.bad(name, "%s.%s" % (ctx.pid, fn), "%s (%s):\n  %s" % (what, f.dem, "\n  ".join(fails[:6])))
        else:
            ctx.ok(name, "%d branch(es), %d instructions" % (n, info.get("insts", 0)))

    def same(self, fl, g, e, w):
        if g is None:
            return False
        if isinstance(g, bool):
            g = int(g)
        if isinstance(g, int):
            g = fl.A.const(sx(g, 32))
        if not isinstance(g, Rat):
            return False
        if not isinstance(e, Rat):
            e = fl.A.const(e)
        return g.eq(e, w.zeros) or g.near(e, zeros=w.zeros) or bool(w.facts) and w.equal(g, e)


def total(xs):
    r = xs[0]
    for x in xs[1:]:
        r = r + x
    return r


def dot(a, b):
    return total([x * y for x, y in zip(a, b)])


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def unit(A, v):
    n = A.sqrt(dot(v, v))
    return [x / n for x in v]


def affine(A, cols, at=None):
    z, o = A.const(0), A.const(1)
    return [x for c in cols for x in list(c) + [z]] + list(at or [z, z, z]) + [o]
