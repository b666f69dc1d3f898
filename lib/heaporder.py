"""Sifting loops keep heap order: one generic iteration against the classical local argument.

The heap content before an operation is one symbolic sequence known to be heap ordered.  Sift-up enters with that
sequence in place and one new last element, sift-down with it in place except slot 0.  At a generic iteration the
only edges that may be violated are those at the current slot i; each iteration is shown to be a swap with the
parent (a child) that leaves violations only at the new slot, and the loop to end only where none remain.
Comparisons are interpreted over every weak order of the slots involved that agrees with the path.
"""
from specs import *
from itertools import product

S_ = 24


class HeapEngine(Engine):
    up = True
    base = None
    results = None
    loops = 0

    def compares(self, fn, L):
        for b in L.blocks:
            for I in fn.blocks[b]:
                if I["op"] == "call" and I.get("fn") and re.match(r"^(Tok[C]?|Triv)::operator<", self.mod.dname(I["fn"])):
                    return True
        return False

    def note(self, ok, rule, msg, st):
        self.results.append((ok, rule, msg, st))

    def exec_loop(self, fn, L, prev, st0):
        if not self.compares(fn, L):
            return super().exec_loop(fn, L, prev, st0)
        self.loops += 1
        if "sifting" in st0.ts:
            return [o for s in self.leave(st0.copy()) for o in self.exec_loop(fn, L, prev, s)]
        d, n, c = self.shape.fields(self, st0, self.base)
        b, o = split_addr(d)
        if b is None or not st0.eq0(o):
            raise AnalysisError("no storage at the sifting loop")
        res = []
        hk, hb = st0.ts["heapid"]
        entry = [(ZERO, n - 1, ZERO)] if self.up else [(P(1), n, P(1))]
        iv = [(("c", P(b), "L", (hk, hb, ZERO)), lo * S_, hi * S_) for lo, hi, _ in entry]
        for st, pb in range_content(self.model, st0.copy(), iv):
            if pb:
                self.note(False, "sift-entry", "the elements that were heap ordered are not in place when sifting starts: %s" % pb, st)
                continue
            # loop variables
            st = st.copy()
            idx = None
            want = st.norm(n - 1) if self.up else ZERO
            init = {}
            for I in self.header_phis(fn, L):
                for pbk, ov in I["in"]:
                    if pbk == prev:
                        v = self.val(st, ov)
                        init[I["id"]] = st.norm(v) if isinstance(v, Poly) else v
            cand = [I["id"] for I in self.header_phis(fn, L) if I["ty"] == "i64" and isinstance(init[I["id"]], Poly) and st.eq0(init[I["id"]] - want)]
            if not cand:
                self.note(False, "sift-start", "sifting does not start at slot %r" % want, st)
                continue
            i = fresh("slot", nn=True)
            tm = {"self": lambda s, x: x, "parent": lambda s, x: self.divc(s, x - 1, 2), "left": lambda s, x: 2 * x + 1,
                  "right": lambda s, x: 2 * x + 2, "elem": lambda s, x: P(b) + x * S_}
            found = False
            for cd in cand:
                forms = {}
                for ph, v in init.items():
                    if ph == cd:
                        continue
                    forms[ph] = [k for k, f in tm.items() if isinstance(v, Poly) and st.eq0(v - f(st, want))]
                H = st.copy()
                H.facts = H.facts + (H.norm(n) - 1 - P(i),)
                for k in self.model.keys(H, b):
                    H.meas.pop(k, None)
                for k, dd in expected(S_, b, [Seg(n, "a", b, 0)]).items():
                    H.meas[k] = dd
                H.env[cd] = P(i)
                ok = True
                for ph, fs in forms.items():
                    if not fs:
                        ok = False
                        break
                    H.env[ph] = tm[fs[0]](H, P(i))
                if not ok:
                    continue
                found = True
                # the element being sifted sits in its slot, or is held in a local while its slot is open
                modes = self.held(st, b, want) + [None]
                for hole in modes:
                    keep = self.results
                    self.results = []
                    try:
                        r = self.generic(fn, L, H, b, n, i, cd, tm, forms, hole)
                        err = None
                    except AnalysisError as e2:
                        r, err = [], e2
                    mine, self.results = self.results, keep
                    if err is None and all(x[0] for x in mine):
                        break
                if err is not None:
                    raise err
                self.results += mine
                res += r
                break
            if not found:
                raise AnalysisError("the variables of the sifting loop are not functions of the slot")
        return res

    def held(self, st, b, slot):
        """locals that hold a live element"""
        m = self.model
        hs = [k for k, v in m.holds(st, b, st.norm(slot * S_)) if k[2] == "L"]
        tag = m.tag_at(hs[0], st.norm(slot * S_)) if hs else None
        out = []
        for k in st.meas:
            if k[0] == "c" and k[2] == "L":
                bb, off = split_addr(st.norm(P(k[1])))
                if bb is not None and bb.op.startswith("alloca") and st.meas[k]:
                    ps = sorted(st.meas[k].items(), key=lambda x: repr(x[0]))
                    lo = [st.norm(p) for p, c in ps if c == 1]
                    if len(ps) == 2 and len(lo) == 1:
                        t = m.tag_at(k, lo[0])
                        if tag is None or t[:2] == tag[:2] and st.eq0(t[2] - tag[2]):
                            out.append((bb, lo[0], k))
        return out

    def generic(self, fn, L, H, b, n, i, cd, tm, forms, hole):
        res = []
        H = H.copy()
        if hole:
            tb, toff, tk = hole
            for k in self.model.keys(H, tb):
                H.meas.pop(k, None)
            for k, dd in expected(S_, tb, [Seg(1, "a", b, P(i) * S_)], toff).items():
                H.meas[k] = dd
            self.model.add(H, b, P(i) * S_, "L", ("a", b, ZERO), sign=-1)
            if self.model.trivial:
                self.model.add(H, b, P(i) * S_, "L", ("stale", None, ZERO))
            else:
                self.model.add(H, b, P(i) * S_, "M", ("m", None, ZERO))
        for out in self.walk_iter_env(fn, L, H.copy()):
            if out[0] == "latch":
                vals = {}
                for I in self.header_phis(fn, L):
                    for pbk, ov in I["in"]:
                        if pbk == out[2]:
                            vals[I["id"]] = out[1].norm(self.val(out[1], ov))
                for ph, fs in forms.items():
                    T = out[1].copy()
                    if not T.eq0(vals[ph] - tm[fs[0]](T, vals[cd])):
                        raise AnalysisError("loop variable %d of the sifting loop is not a function of the slot" % ph)
                self.iteration(out[1], b, n, P(i), vals[cd], hole)
            else:
                # what follows the loop (a last comparison, say) still belongs to the sifting
                if out[0] != "die":
                    out[1].ts["sifting"] = (b, n, P(i))
                res.append(out)
        return res

    # ---- obligations --------------------------------------------------------------------------
    def content(self, st, b, n, x=None, y=None, hole=None, i=None, j=None):
        """[(state, same?)]: content is the iteration's initial one, with slots x < y exchanged; in hole mode the
        open slot j is left out and the local holds element i"""
        def seg(lo, hi, off=ZERO):
            return (("c", P(b), "L", ("a", b, off * S_)), lo * S_, hi * S_)
        n = P(n)
        if x is None:
            iv = [seg(ZERO, n)]
        else:
            iv = [seg(ZERO, x), seg(x, x + 1, y - x), seg(x + 1, y), seg(y, y + 1, x - y), seg(y + 1, n)]
        if hole:
            if x is None:
                iv = [seg(ZERO, i), seg(i + 1, n)]
            else:
                iv = [v for v in iv if v[1] != j * S_ or v[2] != (j + 1) * S_]
            tb, toff, tk = hole
            iv.append((("c", P(tb), "L", ("a", b, i * S_ - toff)), toff, toff + S_))
        return range_content(self.model, st.copy(), iv)

    def orders(self, st, b, slots):
        """ranks of the named slots in every weak order that agrees with the comparisons on this path"""
        lits = []
        seen = set()
        src = set(st.sm)
        for f in st.facts + st.neqs:
            src |= set(deep_terms(f))
        names = list(slots)
        for t in src:
            if t.op != "less" or t in seen:
                continue
            seen.add(t)
            v = st.decide(c_ne(P(t)))
            if v is None:
                continue
            pos = []
            for a in t.args:
                if a.op == "val" and a.args[0] == "a" and st.norm(P(a.args[1]) if not isinstance(a.args[1], Poly) else a.args[1]) == P(b):
                    w = [k for k in names if st.eq0(P(a.args[2]) - slots[k] * S_)]
                    pos.append(w[0] if w else None)
                else:
                    pos.append(None)
            if None not in pos:
                lits.append((pos[0], pos[1], v))
        out = []
        for r in product(range(len(names)), repeat=len(names)):
            rk = dict(zip(names, r))
            if all((rk[x] < rk[y]) == v for x, y, v in lits):
                out.append(rk)
        return out

    def splits(self, st, conds):
        sts = [st]
        for c in conds:
            nx = []
            for s in sts:
                for cc in (c, c_not(c)):
                    nx += [x.copy() for x in s.assume(cc)]
            sts = nx
        return sts

    def family(self, st, n, i):
        """{name: slot} of i and the related slots that exist"""
        f = {"i": i}
        if self.up:
            if st.decide(c_ge(i - 1)):
                f["p"] = self.divc(st, i - 1, 2)
        else:
            for k, s in (("l", 2 * i + 1), ("r", 2 * i + 2)):
                if st.decide(c_ge(P(n) - 1 - s)):
                    f[k] = s
        return f

    def cases_of(self, st, n, i):
        conds = [c_ge(i - 1)] if self.up else [c_ge(P(n) - 2 - 2 * i), c_ge(P(n) - 3 - 2 * i)]
        return self.splits(st, conds)

    def swapped(self, st, b, n, f, hole=None):
        """[(state, name of the slot exchanged with i | '' if unchanged | None)]"""
        out = []
        todo = [st]
        rest = []
        names = [k for k in f if k != "i"]
        names = names + [None] if hole else [None] + names
        for nm in names:
            nxt = []
            for s in todo:
                if nm is None:
                    r = self.content(s, b, n, None, None, hole, f["i"])
                else:
                    x, y = (f[nm], f["i"]) if self.up else (f["i"], f[nm])
                    r = self.content(s, b, n, x, y, hole, f["i"], f[nm])
                for s2, pb in r:
                    if pb is None:
                        out.append((s2, nm or ""))
                    else:
                        nxt.append(s2)
            todo = nxt
        return out + [(s, None) for s in todo]

    def check_swap(self, st, b, f, k):
        for rk in self.orders(st, b, f):
            if (rk[k] < rk["i"]) if self.up else (rk[k] > rk["i"]):
                self.note(False, "swap-direction", "slots %s and i are exchanged although they were in order" % k, st)
                return False
            for o in f:
                if not self.up and o not in ("i", k) and rk[k] > rk[o]:
                    self.note(False, "swap-child", "the larger child (%s) is moved above the other" % k, st)
                    return False
        return True

    def iteration(self, T, b, n, i, j, hole=None):
        for st in self.cases_of(T, n, i):
            f = self.family(st, n, i)
            if not self.orders(st, b, f):
                continue
            for s, k in self.swapped(st, b, n, f, hole):
                if not k:
                    self.note(False, "not-a-swap", "an iteration continues without exchanging the slot with its %s" % ("parent" if self.up else "child"), s)
                elif not s.eq0(j - f[k]):
                    self.note(False, "wrong-slot", "the iteration exchanges slot %r but continues at %r" % (f[k], s.norm(j)), s)
                elif self.check_swap(s, b, f, k):
                    self.note(True, "iteration", "", s)

    def leave(self, T):
        out = []
        b, n, i = T.ts.pop("sifting")
        for st in self.cases_of(T, n, i):
            f = self.family(st, n, i)
            rks = self.orders(st, b, f)
            if not rks:
                continue
            for s, k in self.swapped(st, b, n, f):
                if k is None:
                    self.note(False, "not-a-swap", "sifting ends with elements in unexpected slots", s)
                    continue
                if k == "":
                    bad = [o for rk in rks for o in f if o != "i" and (rk["i"] < rk[o] if self.up else rk[o] < rk["i"])]
                    if bad:
                        self.note(False, "early-exit", "sifting ends although slot i and %s may be out of order" % bad[0], s)
                        continue
                else:
                    if not self.check_swap(s, b, f, k):
                        continue
                    if self.up and not s.eq0(f[k]) or not self.up and not s.ent(2 * f[k] + 1 - P(n)):
                        self.note(False, "early-exit", "sifting ends after an exchange although the new slot may be out of order", s)
                        continue
                self.note(True, "exit", "", s)
                # from here on: a heap ordered sequence
                s = s.copy()
                for kk in self.model.keys(s, b):
                    s.meas.pop(kk, None)
                g = "hp%d" % fresh("gen").id
                for kk, dd in expected(S_, b, [Seg(n, g, b, 0)]).items():
                    s.meas[kk] = dd
                s.ts["heapid"] = (g, b)
                out.append(s)
        return out


class OrderModel(ContModel):
    def ts_ignorable(self, key, old, new):
        return key in ("heapid", "sifting") or super().ts_ignorable(key, old, new)


def check_order(ctx, mod, shape, triv, tag):
    ck = "o" if triv else "c"
    CL[0] = ck
    keep = [o for o in seq_ops(S_, False, False, lambda a, i: a.f[i][2]) if o.fn in ("h_ctor_move", "h_assign_move", "h_reserve", "h_grow", "h_clone")]
    for op in keep:
        run_op(ctx, mod, lambda: ContModel(triv), shape, op, tag + ".order")
    for op, up in ((Op("h_push", ["C", "E"]), True), (Op("h_emplace_move", ["C", "E"]), True), (Op("h_pop", ["C"], pre=lambda a, s: c_ge(a.len(0) - 1)), False),
                   (Op("h_init3", ["O", "E", "E", "E"]), True)):
        fn = mod.fns.get(op.fn)
        name0 = "%s.order.%s" % (tag, op.fn[2:])
        if fn is None:
            ctx.fail("harness function %s vanished" % op.fn)
            continue
        model = OrderModel(triv)
        eng = HeapEngine(mod, model)
        eng.shape, eng.up, eng.results = shape, up, []
        nl = 0
        for st, a, lab in cases(eng, model, shape, op, fn):
            name = name0 + ("[%s]" % lab if lab else "")
            eng.base = a.base[0]
            eng.results = []
            st.ts["heapid"] = ("o", a.segs[0][0].base) if a.segs.get(0) else ("o", None)
            try:
                outs = eng.run(fn, st)
            except (AnalysisError, RecursionError) as e:
                ctx.undecided(name, str(e)[:300])
                continue
            fin = []
            for o in outs:
                if o[0] == "ret" and not all_viols(o[1]):
                    fin += [o[1]] if "sifting" not in o[1].ts else eng.leave(o[1].copy())
            for ok, rule, msg, s in eng.results:
                if ok:
                    ctx.ok(name, "%s obligation" % rule)
                else:
                    ctx.bad(name, "%s:%s" % (name0, rule), "%s: %s\n  case %s, path facts %r" % (name0, msg, lab, s.facts[:12]))
            for s in fin:
                d, n, c = shape.fields(eng, s, a.base[0])
                if s.ent(1 - n):
                    ctx.ok(name, "at most one element")
                    continue
                b, off = split_addr(d)
                hk, hb = s.ts["heapid"]
                for s2, pb in range_content(model, s.copy(), [(("c", P(b), "L", (hk, hb, ZERO)), ZERO, n * S_)]):
                    s3 = [x for x in s2.assume(c_ge(n - 2))]
                    if pb and s3:
                        ctx.bad(name, name0 + ":unsifted", "%s returns with elements that were not brought into heap order: %s\n  case %s, path facts %r" % (name0, pb, lab, s2.facts[:12]))
                    else:
                        ctx.ok(name, "ends heap ordered")
        ctx.count("operations")
        ctx.count("sifting loops", 1 if eng.loops else 0)
        ctx.count("instructions interpreted", eng.stats["insts"])
