"""Queue is a first-in first-out ring: every operation has exactly its sequence effect, on every path."""
from specs import *
from elems import *

ELEMS = (("Tok", ["HAS_DEFAULT"], False), ("TokC", ["HAS_DEFAULT", "HAS_COPY"], False), ("Triv", ["HAS_DEFAULT", "HAS_COPY"], True))


def check(ctx):
    ctx.level = "proof"
    ctx.explanation = ("Abstract interpretation of the instantiated container's IR over polyhedra facts and additive content "
                       "measures; every (operation, input case, path) is one obligation against the sequence contract.")
    ctx.assumptions = ["sizes and index sums do not wrap 2^64", "an allocator returns a fresh block, null exactly for zero bytes",
                       "reference arguments of mutating operations do not alias the container's own elements unless stated",
                       "removal of one element: rings of up to 5 slots"]
    for elem, defs, triv in ELEMS:
        defs = ["ELEM=" + elem] + defs
        mod = harness("queue", defs=defs, variant=elem)
        shape = QueueShape(layouts(VERIF + "/harness/queue.cpp", defs)["L_c"], 24)
        CL[0] = "o" if triv else "c"
        for op in queue_ops(24, True, "HAS_COPY" in defs, triv):
            run_op(ctx, mod, lambda: ContModel(triv), shape, op, "Queue<%s>" % elem)
        erase(ctx, mod, shape, elem, triv)
    ctx.floor("removals", ctx.cov.get("removals", 0), 300)
    ctx.floor("operations", ctx.cov.get("operations", 0), 75)


def erase(ctx, mod, shape, elem, triv):
    """removal of the first equal element, in every ring of up to CAP slots"""
    probs = {}
    fn = mod.fns["h_erase_first"]
    for cap in range(0, 6):
        for n in range(cap + 1):
            for last in range(max(cap, 1)):
                ids = ["e%d" % i for i in range(n)]
                pos = [(last - n + i) % cap for i in range(n)]

                def body(w):
                    m = Elems(mod, w)
                    q = m.obj("queue", {shape.f_data: (8, ("p", "ring", 0) if cap else 0), shape.f_len: (8, n), shape.f_last: (8, last), shape.f_cap: (8, cap)})
                    m.obj("ring"), m.obj("value")
                    for o, p, x in [("value", 0, "value")] + [("ring", 24 * p, x) for p, x in zip(pos, ids)]:
                        if triv:
                            m.mem[o][p] = (24, ("id", x))
                        else:
                            m.slot[(o, p)] = ["alive", x]
                    at = "%d of %d slots, the next at %d" % (n, cap, last)
                    ctx.count("removals")
                    try:
                        r = m.run(fn, [q, ("p", "value", 0)])
                    except Fault as e:
                        return probs.setdefault("lifetime", "%s: %s" % (at, e))
                    if m.trap:
                        return probs.setdefault("stops", "%s: ends the program at %s" % (at, m.trap))
                    hit = next((x for x in ids if m.eq.get(x)), None)
                    want = [x for x in ids if x != hit]
                    for x in ids[:ids.index(hit)] if hit else ids:
                        if x not in m.eq:
                            probs.setdefault("first", "%s: %s is not compared, %s" % (at, x, "though a later one is removed" if hit else "though nothing is found"))
                    if r is None or (r & 1) != (hit is not None):
                        probs.setdefault("result", "%s: returns %s when %s" % (at, r, "an element is equal" if hit else "no element is equal"))
                    g = lambda o: m.get("queue", o, 8)
                    if g(shape.f_data) != (("p", "ring", 0) if cap else 0) or g(shape.f_cap) != cap:
                        return probs.setdefault("storage", "%s: the storage changes" % at)
                    l2, n2 = g(shape.f_last), g(shape.f_len)
                    if n2 != len(want):
                        return probs.setdefault("length", "%s: the length becomes %s" % (at, n2))
                    if not isinstance(l2, int) or l2 >= max(cap, 1):
                        return probs.setdefault("position", "%s: the next position becomes %s" % (at, l2))
                    got = []
                    for i in range(n2):
                        k = ("ring", 24 * ((l2 - n2 + i) % cap))
                        if triv:
                            v = m.get(k[0], k[1], 24)
                            got.append(v[1] if isinstance(v, tuple) and v[0] == "id" else None)
                        else:
                            v = m.slot.get(k)
                            got.append(v[1] if v and v[0] == "alive" else None)
                    if got != want:
                        return probs.setdefault("content", "%s: removing %s leaves %s" % (at, hit, got))
                    if not triv:
                        live = [v[1] for k, v in m.slot.items() if v[0] == "alive" and k[0] != "value"]
                        if len(live) != n2 or m.ended != ([hit] if hit else []):
                            probs.setdefault("lifetime", "%s: destroys %s, leaves %s" % (at, m.ended, live))
                try:
                    explore(Alg(), body)
                except AnalysisError as e:
                    ctx.undecided("Queue<%s>.erase_first" % elem, str(e))
                    return
    for k, t in probs.items():
        ctx.bad("Queue<%s>.erase_first" % elem, "Queue<%s>.erase_first:%s" % (elem, k), t)
    if not probs:
        ctx.ok("Queue<%s>.erase_first" % elem)
