"""Map: insertion, lookup and erasure keep the robin-hood table and find exactly the keys that are in it."""
from flow import Flow, explore
from alg import Alg
from build import *
from maps import *
from slot import *

RET = {}


class Spec:
    """what one operation does, given the map it runs on"""

    def __init__(self, fn, args, scan=None, dies=False):
        self.fn, self.args, self.scan, self.dies = fn, args, scan, dies

    def after_scan(self, eng, T, rec):
        if not rec["lat"]:
            r = T.assume(c_eq(rec["i"]))
            return r[0].copy() if r else T
        return getattr(eng.chk, "scan_" + (self.scan or "none"))(eng, T, rec)


class Checker:
    def __init__(self, ctx, triv):
        self.ctx, self.triv = ctx, triv
        defs = ["TRIVIAL"] if triv else []
        self.mod = harness("map", OPAQUE, defs=defs, variant="t" if triv else "")
        self.L = layouts(os.path.join(VERIF, "harness", "map.cpp"), defs)
        self.tag = "Map<trivial>" if triv else "Map"
        m = MapModel(self.L)
        e = MapEngine(self.mod, m)
        self.rooms = {}
        self.SS = int(e.run(self.mod.fns["h_slot_size"], State())[0][2].cval())

    # ---- the map before the operation ----------------------------------------------------------
    def maps(self, eng, st, m):
        """(label, state) for an empty map without a table, and for every size of table"""
        F, SS = self.model.F, self.SS
        out = []

        def put(s, data, cap, length, usable, shift):
            for n, v in (("data", data), ("capacity", cap), ("length", length), ("usable", usable), ("shift", shift)):
                eng.set_cell(s, m, P(F[n]), 8, s.norm(P(v)))
            s.ts[("in", m)] = (P(data), P(cap), P(length))
        s = st.copy()
        put(s, ZERO, ZERO, ZERO, ZERO, P(fresh("shift", nn=True)))
        out.append(("null", s))
        for lab in ("cap1", "cap2", "capN"):
            s = st.copy()
            D = fresh("table", ptr=True)
            self.model.tables.add(D)
            s = s.assume1(c_ge(P(D) - 1)).copy()
            if lab == "capN":
                q = P(fresh("q", nn=True))
                s.facts = s.facts + (q - 1,)
                cap = q * 4
                self.model.pow2.append(cap)
            else:
                cap = P(int(lab[3:]))
            n, u = P(fresh("len", nn=True)), P(fresh("usable", nn=True))
            s.facts = s.facts + (u - n, self.room(s, cap) - u * 4)
            if lab != "cap1":
                s.facts = s.facts + (u - 1,)
            else:
                s.ts[("slot", D, ZERO)] = (None, ZERO)      # has room for no entry
            s.ts[("buf", D)] = "live"
            s.ts[("size", D)] = cap * SS
            put(s, D, cap, n, u, self.model.ctlz_(s, cap) + 1)
            for s2 in s.assume(c_ge(n)) if lab != "cap1" else s.assume(c_eq(n)):
                for s3 in s2.assume(c_eq(u)) if lab == "cap1" else [s2]:
                    out.append((lab, s3.copy()))
        return out

    def room(self, st, cap):
        """four times the number of entries a table of that capacity may hold, as the constructor has it"""
        cap = st.norm(cap)
        key = cap.cval() if cap.is_const() else "N"
        if key not in self.rooms:
            eng = MapEngine(self.mod, self.model)
            eng.notes, eng.maps, eng.scans, eng.counts = [], [], [], {}
            s = State()
            b = fresh("o", ptr=True, nn=True)
            s = s.assume1(c_ge(P(b) - 1)).copy()
            q = P(fresh("q", nn=True))
            if key == "N":
                s.facts = s.facts + (q - 1,)
                self.model.pow2.append(q * 4)
            s.env[0], s.env[1] = P(b), q * 4 if key == "N" else cap
            eng.maps = [b]
            outs = eng.run(self.mod.fns["h_ctor_cap"], s)
            us = [o[1].norm(eng.field(o[1], b, "usable")) for o in outs if o[0] == "ret"]
            if len(us) != 1 or any(len(mono) > 1 for mono in us[0].t) or any(t is not next(iter(q.terms())) for t in us[0].terms()):
                raise AnalysisError("the constructor's load limit is not understood: %r" % (us,))
            self.rooms[key] = (us[0], q)
        u, q = self.rooms[key]
        if key != "N":
            return u * 4
        k0 = subst(u, {next(iter(q.terms())): ZERO})
        k1 = subst(u, {next(iter(q.terms())): P(1)}) - k0
        return k1 * cap + k0 * 4

    def run(self, spec):
        ctx = self.ctx
        fn = self.mod.fns.get("h_" + spec.fn)
        if fn is None:
            return ctx.fail("harness function h_%s vanished" % spec.fn)
        self.model = MapModel(self.L)
        self.model.SS = self.SS
        base = State()
        addr = []
        for a in spec.args:
            b = fresh(a, ptr=True, nn=True) if a != "n" else fresh("n", nn=True)
            addr.append(b)
            if a != "n":
                base = base.assume1(c_ge(P(b) - 1)).copy()
        eng0 = MapEngine(self.mod, self.model)
        sts = [("", base)]
        live = [b for a, b in zip(spec.args, addr) if a in "msd"]
        for b in live:
            sts = [((l + "," if l else "") + l2, s2) for l, s in sts for l2, s2 in self.maps(eng0, s, b)]
        for a, b in zip(spec.args, addr):
            if a == "i":
                m = fresh("m", ptr=True, nn=True)
                nst = []
                for l, s in sts:
                    s = s.assume1(c_ge(P(m) - 1)).copy()
                    for l2, s2 in self.maps(eng0, s, m):
                        n = P(fresh("count", nn=True))
                        ic = {k: v[0] for k, v in self.L["L_it"].items()}
                        eng0.set_cell(s2, b, P(ic["i.map_"]), 8, P(m))
                        eng0.set_cell(s2, b, P(ic["i.count_"]), 8, n)
                        s2.ts["count0"] = n
                        for s3 in s2.assume(c_ge(s2.ts[("in", m)][1] - n - (1 if spec.fn != "it_eq" else 0))):
                            nst.append((l2, s3.copy()))
                sts = nst
                live.append(m)
        name = "%s.%s" % (self.tag, spec.fn)
        for lab, st in sts:
            eng = MapEngine(self.mod, self.model)
            eng.notes, eng.maps, eng.scans, eng.counts, eng.opspec, eng.chk = [], live + [b for a, b in zip(spec.args, addr) if a == "o"], [], {}, spec, self
            self.spec, self.live, self.addr = spec, live, addr
            for n, b in enumerate(addr):
                st.env[n] = P(b)
            nm = name + "[%s]" % lab
            try:
                outs = eng.run(fn, st.copy())
                for ok, rule, msg, s in eng.notes:
                    if ok:
                        ctx.ok(nm, rule)
                    else:
                        self.bad(name, rule, msg, lab, s)
                if not outs:
                    ctx.undecided(nm, "no feasible path")
                for o in outs:
                    vs = [e for e in o[1].events() if e[0] == "viol"] + [("viol", "bad-pointer", "%s through the null or wild pointer %r" % (e[1], e[2]), e[3]) for e in o[1].events() if e[0] == "badptr"]
                    if vs:
                        self.bad(name, vs[0][1], vs[0][2] + (" at %s" % ir.where(vs[0][3]) if vs[0][3] else ""), lab, o[1])
                        continue
                    w = self.outcome(eng, o, lab)
                    if w:
                        self.bad(name, re.sub(r"[#\d].*", "", w)[:50], w, lab, o[1])
                    else:
                        ctx.ok(nm)
            except (AnalysisError, NeedSplit, RecursionError) as e:
                ctx.undecided(nm, str(e)[:300])
            for k, v in eng.counts.items():
                ctx.count(k + " loops", v)
        ctx.count("operations")

    def bad(self, name, rule, msg, lab, s):
        self.ctx.bad(name, "%s:%s" % (name.split("[")[0], rule), "%s: %s\n  on a map with %s, path facts %r" % (name, msg, lab, s.facts[:10]))

    # ---- loops over all slots -----------------------------------------------------------------
    def whole(self, eng, rec, cap, start=ZERO):
        st0 = rec["st0"]
        if not any(st0.eq0(v - start) for v in rec["start"]):
            eng.note(False, "scan-start", "a loop over all slots starts at %r" % (rec["start"],), st0)
        i = rec["i"]
        for T, ev, n, res, ch in rec["lat"]:
            if not T.ent(cap - 1 - start - i):
                eng.note(False, "scan-end", "a loop over all slots may run past the table", T)
        return all(T.ent(i + start - cap) for T, ev in rec["exits"])

    def occupied(self, T, D, off):
        for k, v in T.ts.items():
            pass
        for t in {t for f in list(T.facts) + list(T.neqs) + list(T.sm.values()) + [P(x) for x in T.sm] + [x[1] for k, x in T.ts.items() if isinstance(k, tuple) and k[0] == "slot"] for t in deep_terms(f)}:
            if t.op == "hash" and t.args[0] is D and T.eq0(P(t.args[1]) - off):
                z = T.decide(c_eq(P(t)))
                if z is not None:
                    return not z
        return None

    def table(self, st, m):
        return split_addr(st.norm(st.ts[("in", m)][0]))[0]

    def scan_cap(self, st):
        return st.norm(st.ts[("in", self.live[0])][1])

    def scan_none(self, eng, T, rec):
        raise AnalysisError("unexpected loop over slots at %s" % rec["name"])

    def scan_rehash(self, eng, T, rec):
        m = self.live[0]
        D, cap = self.table(T, m), T.ts[("in", m)][1]
        i = rec["i"]
        if not self.whole(eng, rec, cap):
            eng.note(False, "rehash-end", "rehashing may stop before the last slot of the old table", T)
        lk = (m, P(self.model.F["length"]))
        for S, ev, n, res, ch in rec["lat"]:
            occ = self.occupied(S, D, i * self.SS)
            if res and res[2] == "replaced":
                continue                # keys of a map are distinct
            if occ is None:
                eng.note(False, "rehash-skip", "rehashing may skip an occupied slot", S)
            elif occ and (n != 1 or not res or repr(res[3][:2]) != repr(("at", D)) or not S.eq0(res[3][2] - i * self.SS)):
                eng.note(False, "rehash-lost", "rehashing does not insert the entry of an occupied slot exactly once", S)
            elif not occ and n:
                eng.note(False, "rehash-extra", "rehashing inserts an empty slot", S)
            elif any(not S.eq0(b - a - n) if k == lk else True for k, (a, b) in ch.items()):
                eng.note(False, "rehash-length", "rehashing changes %r" % (ch,), S)
            else:
                eng.note(True, "rehash", "", S)
        if lk in rec["cells"]:
            c = rec["cells"][lk]
            if not rec["st0"].eq0(c[0]):
                eng.note(False, "rehash-length", "rehashing counts the entries again on top of %r" % c[0], T)
            r = T.assume(c_eq(T.norm(c[2]) - T.ts[("in", m)][2]))
            T = r[0].copy() if r else T
        T.ts["rehashed"] = True
        return T

    def scan_drop(self, eng, T, rec):
        m = self.live[0]
        D, cap = self.table(T, m), T.ts[("in", m)][1]
        if not self.whole(eng, rec, cap):
            eng.note(False, "drop-end", "entries in the last slots may not be destroyed", T)
        for S, ev, n, res, ch in rec["lat"]:
            d = [e for e in ev if e[0] in ("drop", "put", "init")]
            if len(d) == 1 and d[0][0] == "drop" and S.eq0(d[0][1] - P(D) - rec["i"] * self.SS):
                eng.note(True, "drop", "", S)
            elif not d and self.occupied(S, D, rec["i"] * self.SS) is False:
                eng.note(True, "drop", "", S)
            else:
                eng.note(False, "drop", "a slot is not destroyed exactly once", S)
        T.ts["dropped"] = True
        return T

    def scan_clone(self, eng, T, rec):
        m = self.live[0]
        D, cap = self.table(T, m), T.ts[("in", m)][1]
        if not self.whole(eng, rec, cap):
            eng.note(False, "clone-end", "entries in the last slots may not be cloned", T)
        o = self.addr[0]
        for S, ev, n, res, ch in rec["lat"]:
            occ = self.occupied(S, D, rec["i"] * self.SS)
            made = [(k, v) for k, v in S.ts.items() if isinstance(k, tuple) and k[0] == "slot" and v[0] is not None and v[0][0] == "clone" and k[1] in self.model.tables]
            if occ is None:
                eng.note(False, "clone-skip", "cloning may skip an occupied slot", S)
            elif occ and (len(made) != 1 or not S.eq0(made[0][0][2] - rec["i"] * self.SS) or made[0][0][1] is D or repr(made[0][1][0][1][:2]) != repr(("at", D)) or not S.eq0(made[0][1][0][1][2] - rec["i"] * self.SS)):
                eng.note(False, "clone-lost", "an entry is not cloned into the same slot of the new table", S)
            elif not occ and made:
                eng.note(False, "clone-extra", "an empty slot is cloned", S)
            else:
                S_ = self.model.ent(S, P(D) + rec["i"] * self.SS)
                eng.note(True, "clone", "", S)
            if made:
                T.ts["cloned"] = made[0][0][1]
        T.ts["allcloned"] = True
        return T

    def scan_skip(self, eng, T, rec):
        m = self.live[0]
        cap = T.ts[("in", m)][1]
        D = self.table(T, m)
        st0, i = rec["st0"], rec["i"]
        s = rec["start"][0]
        for S, ev, n, res, ch in rec["lat"]:
            if not S.ent(cap - 1 - s - i) or self.occupied(S, D, (s + i) * self.SS) is not False:
                eng.note(False, "iter-skip", "iteration may pass an occupied slot", S)
            elif ch or [e for e in ev if e[0] in ("put", "init", "drop")]:
                eng.note(False, "iter-effect", "iteration changes the map", S)
            else:
                eng.note(True, "skip", "", S)
        for S, ev in rec["exits"]:
            if not S.ent(s + i - cap) and self.occupied(S, D, (s + i) * self.SS) is not True:
                eng.note(False, "iter-stop", "iteration may stop at an empty slot", S)
            else:
                eng.note(True, "stop", "", S)
        T.ts["skipped"] = s + i
        return T

    # ---- results ------------------------------------------------------------------------------
    def wellformed(self, eng, st, m, what):
        v = {n: eng.field(st, m, n) for n in self.model.F}
        if st.eq0(v["data"]):
            if not (st.eq0(v["capacity"]) and st.eq0(v["length"]) and st.eq0(v["usable"])):
                return "%s has no table but capacity %r, length %r and room for %r" % (what, v["capacity"], v["length"], v["usable"])
            return None
        b, o = split_addr(v["data"])
        if b not in self.model.tables or st.ts.get(("buf", b)) != "live" or not st.eq0(o):
            return "%s has a table %r that is not live" % (what, v["data"])
        c = v["capacity"]
        if not self.model.is_pow2(st, c):
            return "the capacity %r of %s is not a power of two" % (c, what)
        if not st.ent(st.ts[("size", b)] - c * self.SS):
            return "%s has %r bytes for %r slots" % (what, st.ts[("size", b)], c)
        z = st.ts.get(("zeroed", b))
        if z is not None and not st.ent(z - c * self.SS) and not st.ts.get("whole", None) == b:
            return "the new table of %s is not cleared" % what
        if not st.eq0(v["shift"] - 1 - self.model.ctlz_(st, c)):
            return "the shift %r of %s does not fit its capacity %r" % (v["shift"], what, c)
        if not st.ent(c - 1 - v["usable"]):
            return "%s may fill all its slots" % what
        if not st.ent(self.room(st, c) - v["usable"] * 4):
            return "%s has room for %r entries, more than a clone would have" % (what, v["usable"])
        if not st.ent(v["usable"] - v["length"]) or not st.ent(v["length"]):
            return "%s may hold more entries than it has room for: %r of %r" % (what, v["length"], v["usable"])
        return None

    def outcome(self, eng, o, lab):
        st = o[1]
        sp, A = self.spec, dict(zip(self.spec.args, self.addr))
        F = {n: None for n in self.model.F}
        name = sp.fn
        if o[0] == "die":
            if name in ("get", "cget", "erase") and ("res" not in st.ts and st.eq0(st.ts[("in", A["m"])][2]) or st.ts.get("res") == ("none",)):
                return None
            return "terminates the program"
        if "pend" in st.ts:
            return "the entry is never put into the table"
        ret = st.norm(o[2]) if len(o) > 2 and isinstance(o[2], Poly) else o[2] if len(o) > 2 else None
        for a, b in zip(sp.args, self.addr):
            if a in "msd" or a == "o":
                if name == "dtor":
                    continue
                w = self.wellformed(eng, st, b, "the map" if a != "s" else "the moved-from map")
                if w:
                    return w
        used = set()
        if name != "dtor":
            for b in self.live + ([A["o"]] if "o" in A else []):
                used.add(split_addr(eng.field(st, b, "data"))[0])
        for k, v in st.ts.items():
            if isinstance(k, tuple) and k[0] == "buf" and v == "live" and k[1] not in used:
                return "a table is leaked"
        return getattr(self, "r_" + sp.fn)(eng, st, A, ret)

    def inn(self, st, m):
        return tuple(st.norm(x) for x in st.ts[("in", m)])

    def same(self, eng, st, m, length=None, only=()):
        D, c, n = self.inn(st, m)
        if not st.eq0(eng.field(st, m, "data") - D) or not st.eq0(eng.field(st, m, "capacity") - c):
            return "the table changes"
        if not st.eq0(eng.field(st, m, "length") - (n if length is None else length)):
            return "the length becomes %r, it was %r" % (eng.field(st, m, "length"), n)
        if length is None and [e for e in st.events() if e[0] in ("put", "init", "drop", "wipe") and split_addr(e[1])[0] is self.table(st, m)]:
            return "the entries change"

    def nomap(self, eng, st, m):
        return None if st.eq0(eng.field(st, m, "data")) and st.eq0(eng.field(st, m, "length")) else "the map is not empty"

    def r_ctor(self, eng, st, A, r):
        return self.nomap(eng, st, A["o"])

    def r_ctor_cap(self, eng, st, A, r):
        if not st.eq0(eng.field(st, A["o"], "length")):
            return "the new map is not empty"
        if not st.ent(eng.field(st, A["o"], "capacity") - P(A["n"])):
            return "the new map has fewer slots than asked for"

    def moved(self, eng, st, d, s):
        D, c, n = self.inn(st, s)
        if not (st.eq0(eng.field(st, d, "data") - D) and st.eq0(eng.field(st, d, "capacity") - c) and st.eq0(eng.field(st, d, "length") - n)):
            return "the target does not take the table over"
        return None if st.eq0(eng.field(st, s, "data")) else "the source keeps the table"

    def r_ctor_move(self, eng, st, A, r):
        return self.moved(eng, st, A["o"], A["s"])

    def r_assign_move(self, eng, st, A, r):
        return self.moved(eng, st, A["d"], A["s"]) or self.gone(st, A["d"])

    def gone(self, st, m):
        D = self.table(st, m)
        if D is None:
            return None
        if st.ts[("buf", D)] != "freed":
            return "the table is not released"
        if not self.triv and not st.ts.get("dropped"):
            return "the entries are not destroyed"

    def r_dtor(self, eng, st, A, r):
        return self.gone(st, A["m"])

    def r_clone(self, eng, st, A, r):
        w = self.same(eng, st, A["m"])
        if w:
            return w
        D, c, n = self.inn(st, A["m"])
        o = A["o"]
        if not st.eq0(eng.field(st, o, "length") - n):
            return "the clone has length %r, not %r" % (eng.field(st, o, "length"), n)
        if st.eq0(D):
            return
        b = split_addr(eng.field(st, o, "data"))[0]
        if b is split_addr(D)[0]:
            return "the clone shares the table"
        if not st.eq0(eng.field(st, o, "capacity") - c):
            return "the clone has another capacity, so its entries are not where they are sought"
        cp = [e for e in st.events() if e[0] == "memcpy"]
        if cp and self.triv:
            return None if len(cp) == 1 and st.eq0(cp[0][1] - P(b)) and st.eq0(cp[0][2] - D) and st.eq0(cp[0][3] - c * self.SS) else "the table is not copied as a whole"
        return None if st.ts.get("allcloned") and st.ts.get("cloned", b) is b and not cp else "the entries are not cloned"

    def grown(self, eng, st, m, least=None):
        D, c, n = self.inn(st, m)
        if not st.eq0(eng.field(st, m, "length") - n):
            return "the length changes from %r to %r" % (n, eng.field(st, m, "length"))
        c2 = eng.field(st, m, "capacity")
        if not st.eq0(eng.field(st, m, "data") - D):
            if self.table(st, m) is not None and (not st.ts.get("rehashed") or st.ts[("buf", self.table(st, m))] != "freed"):
                return "the entries are not carried over to the new table"
            if not st.ent(c2 - c):
                return "the table shrinks"
        if least is not None and not st.ent(c2 - least):
            return "the capacity %r is less than asked for" % c2

    def r_reserve(self, eng, st, A, r):
        return self.grown(eng, st, A["m"], P(A["n"]))

    def r_grow(self, eng, st, A, r):
        return self.grown(eng, st, A["m"], self.inn(st, A["m"])[1] + 1)

    def r_clear(self, eng, st, A, r):
        D, c, n = self.inn(st, A["m"])
        w = self.same(eng, st, A["m"], ZERO)
        if w or st.eq0(D) or st.eq0(n):
            return w
        if st.ts.get("dropped"):
            return
        wp = [e for e in st.events() if e[0] == "wipe"]
        if self.triv and len(wp) == 1 and st.eq0(wp[0][2]) and st.eq0(wp[0][3] - c * self.SS) and st.eq0(wp[0][1] - D):
            return
        return "the entries are not removed"

    def r_empty(self, eng, st, A, r):
        n = self.inn(st, A["m"])[2]
        return self.same(eng, st, A["m"]) or self.isc(st, r, c_eq(n))

    def isc(self, st, r, c):
        r = r if is_cond(r) else c_ne(P(r))
        for s in st.assume(r):
            if s.decide(c) is not True:
                return "returns true although %r is not known" % (c,)
        for s in st.assume(c_not(r)):
            if s.decide(c) is not False:
                return "returns false although %r may hold" % (c,)

    def r_full(self, eng, st, A, r):
        return self.same(eng, st, A["m"]) or self.isc(st, r, c_eq(self.inn(st, A["m"])[2] - eng.field(st, A["m"], "usable")))

    def r_length(self, eng, st, A, r):
        return self.same(eng, st, A["m"]) or (None if st.eq0(r - self.inn(st, A["m"])[2]) else "returns %r" % r)

    # insertion
    def inserted(self, eng, st, A, r, k, v):
        m = A["m"]
        D, c, n = self.inn(st, m)
        res = st.ts.get("res")
        if not res or res[0] != "placed":
            return "nothing is inserted"
        if repr(res[3]) != repr(("new", st.norm(k), st.norm(v))):
            return "inserts %r instead of the given key and value" % (res[3],)
        if not st.eq0(eng.field(st, m, "length") - n - (1 if res[2] == "added" else 0)):
            return "the length becomes %r from %r although the key was %s" % (eng.field(st, m, "length"), n, "new" if res[2] == "added" else "there already")
        if not st.eq0(r - res[1] - self.model.po - self.model.vo):
            return "returns %r, not where the value is (%r)" % (r, res[1])
        if not st.eq0(eng.field(st, m, "data") - D) and self.table(st, m) is not None and not st.ts.get("rehashed"):
            return "the entries are not carried over to the new table"

    def val0(self, A, n):
        return P(term("ld", A[n], ZERO, 8, 0, False, nn=True))

    def kval(self, eng, st, A, n):
        return eng.model.kid(eng, st, P(A[n]))

    def r_insert(self, eng, st, A, r):
        return self.inserted(eng, st, A, r, self.kval(eng, st, A, "k"), self.kval(eng, st, A, "v"))
    r_emplace = r_insert

    # lookup
    def found(self, eng, st, A, ptr):
        """ptr: the value delivered, or None"""
        m = A["m"]
        w = self.same(eng, st, m)
        if w:
            return w
        n = self.inn(st, m)[2]
        res = st.ts.get("res")
        if res is None:
            return None if ptr is None and st.eq0(n) else "answers without looking"
        if not st.eq0(st.ts["seek"] - self.model.hk(st, self.kval(eng, st, A, "k"))):
            return "looks for another key"
        if (res[0] == "found") != (ptr is not None):
            return "reports the key %s" % ("missing although it is there" if ptr is None else "present although it is not there")
        if ptr is not True and ptr is not None and not st.eq0(ptr - res[1] - self.model.po - self.model.vo):
            return "returns %r although the entry is at %r" % (ptr, res[1])

    def r_try_get(self, eng, st, A, r):
        ok = st.norm(eng.load(st, P(A["out"]) + self.L["L_opt"]["o.ok_"][0], 1, "i8"))
        ok = st.decide(ok if is_cond(ok) else c_ne(ok))
        if ok is None:
            return "the result is not decided"
        return self.found(eng, st, A, st.norm(eng.load(st, P(A["out"]) + self.L["L_opt"]["o.value_.value_"][0], 8, "ptr")) if ok else None)
    r_ctry_get = r_try_get

    def r_contains(self, eng, st, A, r):
        d = st.decide(r if is_cond(r) else c_ne(r))
        if d is None:
            return "the result is not decided"
        return self.found(eng, st, A, True if d else None)

    def r_get(self, eng, st, A, r):
        return self.found(eng, st, A, r)
    r_cget = r_get

    def erased(self, eng, st, A, d):
        m = A["m"]
        D, c, n = self.inn(st, m)
        res = st.ts.get("res")
        if not d:
            if res is not None and res[0] == "found" or res is None and not st.eq0(n):
                return "reports the key missing although it is there"
            return self.same(eng, st, m)
        if res is None or res[0] != "found":
            return "reports the key erased although it was not there"
        if not st.eq0(st.ts["seek"] - self.model.hk(st, self.kval(eng, st, A, "k"))):
            return "looks for another key"
        dr = [e for e in st.events() if e[0] == "drop" and split_addr(e[1])[0] in self.model.tables]
        if len(dr) != 1 or not st.eq0(dr[0][1] - res[1]):
            return "destroys %r, not the entry found" % ([e[1] for e in dr],)
        if not st.ts.get("closed"):
            return "the gap is not closed"
        return self.same(eng, st, m, n - 1)

    def r_try_erase(self, eng, st, A, r):
        d = st.decide(r if is_cond(r) else c_ne(r))
        return "the result is not decided" if d is None else self.erased(eng, st, A, d)

    def r_erase(self, eng, st, A, r):
        return self.erased(eng, st, A, True)

    def r_get_or_insert(self, eng, st, A, r):
        res = st.ts.get("res")
        if res and res[0] == "found":
            return self.found(eng, st, A, r)
        return self.inserted(eng, st, A, r, self.kval(eng, st, A, "k"), P(term("vdefault")) if not self.triv else ZERO)
    r_get_or_insert_move = r_get_or_insert

    # iteration
    def itf(self, eng, st, a):
        f = {k: v[0] for k, v in self.L["L_it"].items()}
        return st.norm(eng.load(st, P(a) + f["i.map_"], 8, "ptr")), st.norm(eng.load(st, P(a) + f["i.count_"], 8, "i64"))

    def at_iter(self, eng, st, A, it, m, start):
        mp, n = self.itf(eng, st, it)
        D, c, ln = self.inn(st, m)
        if not st.eq0(mp - P(m)):
            return "the iterator refers to another map"
        w = self.same(eng, st, m)
        if w:
            return w
        if "skipped" in st.ts:
            return None if st.eq0(n - st.ts["skipped"]) or st.eq0(n - start) and not st.ts.get("x") else "the iterator is at %r, not at the slot found" % n
        if st.eq0(n - start) and (st.ent(start - c) or self.occupied(st, self.table(st, m), start * self.SS)):
            return None
        return "the iterator is at %r" % n

    def r_begin(self, eng, st, A, r):
        if "skipped" in st.ts:
            sc = eng.scans[st.ts["scans"][-1][0]]
            if not any(st.eq0(x) for x in sc["start"]):
                return "the search for the first entry starts at %r" % (sc["start"],)
        return self.at_iter(eng, st, A, A["out"], A["m"], ZERO)
    r_cbegin = r_begin

    def r_end(self, eng, st, A, r):
        mp, n = self.itf(eng, st, A["out"])
        c = self.inn(st, A["m"])[1]
        return None if st.eq0(mp - P(A["m"])) and st.eq0(n - c) else "the end is at %r of %r slots" % (n, c)
    r_cend = r_end

    def r_incr(self, eng, st, A, r):
        m = self.live[0]
        old = st.ts["count0"]
        if "skipped" in st.ts:
            sc = eng.scans[st.ts["scans"][-1][0]]
            if not any(st.eq0(x - st.norm(old) - 1) for x in sc["start"]):
                return "the search for the next entry starts at %r after %r" % (sc["start"], old)
        return self.at_iter(eng, st, A, A["i"], m, st.norm(old) + 1)

    def r_post_incr(self, eng, st, A, r):
        mp, n = self.itf(eng, st, A["out"])
        if not st.eq0(n - st.norm(st.ts["count0"])) or not st.eq0(mp - P(self.live[0])):
            return "the old position is not returned"
        return self.r_incr(eng, st, A, r)

    def r_it_key(self, eng, st, A, r):
        D = self.inn(st, self.live[0])[0]
        return None if st.eq0(r - D - st.norm(st.ts["count0"]) * self.SS - self.model.po) else "refers to %r" % r

    def r_it_value(self, eng, st, A, r):
        D = self.inn(st, self.live[0])[0]
        return None if st.eq0(r - D - st.norm(st.ts["count0"]) * self.SS - self.model.po - self.model.vo) else "refers to %r" % r


def specs():
    return [Spec("ctor", ["o"]), Spec("ctor_cap", ["o", "n"]), Spec("ctor_move", ["o", "s"]), Spec("assign_move", ["d", "s"], "drop"),
            Spec("dtor", ["m"], "drop"), Spec("clone", ["o", "m"], "clone"), Spec("reserve", ["m", "n"], "rehash"), Spec("grow", ["m"], "rehash"),
            Spec("clear", ["m"], "drop"), Spec("empty", ["m"]), Spec("full", ["m"]), Spec("length", ["m"]),
            Spec("insert", ["m", "k", "v"], "rehash"), Spec("emplace", ["m", "k", "v"], "rehash"),
            Spec("try_get", ["out", "m", "k"]), Spec("ctry_get", ["out", "m", "k"]), Spec("contains", ["m", "k"]),
            Spec("get", ["m", "k"]), Spec("cget", ["m", "k"]), Spec("try_erase", ["m", "k"]), Spec("erase", ["m", "k"]),
            Spec("get_or_insert", ["m", "k"], "rehash"), Spec("get_or_insert_move", ["m", "k"], "rehash"),
            Spec("begin", ["out", "m"], "skip"), Spec("cbegin", ["out", "m"], "skip"), Spec("end", ["out", "m"], "skip"), Spec("cend", ["out", "m"], "skip"),
            Spec("incr", ["i"], "skip"), Spec("post_incr", ["out", "i"], "skip"), Spec("it_key", ["i"]), Spec("it_value", ["i"])]


def check(ctx):
    ctx.level = "proof"
    ctx.explanation = ("Every loop of the table is interpreted at one generic slot with arbitrary content: searches stop only where the table's invariant excludes the key, "
                       "insertions exchange exactly where they must, erasing closes the gap; capacities, shifts, lengths and the table's ownership are tracked over every operation.")
    ctx.assumptions = ["key equality is an equivalence that agrees with the hash (C24)", "capacities do not wrap 2^64"]
    for triv in (False, True):
        c = Checker(ctx, triv)
        for sp in specs():
            c.run(sp)
        it_equal(ctx, c)
    L = layouts(os.path.join(VERIF, "harness", "slot.cpp"), [])
    smod = harness("slot", [r"hash_nonzero<"])
    for p in ("s0", "s1", "s2", "s3"):
        for op in slot_ops(p):
            run_op(ctx, smod, SlotModel, SlotShape(L["L_s"], 24), op, "Map_Slot")
    ctx.floor("operations", ctx.cov.get("operations", 0), 80)
    for k in ("insert", "lookup", "fixup", "scan"):
        ctx.floor(k + " loops", ctx.cov.get(k + " loops", 0), 6)


def it_equal(ctx, c):
    """two iterators are the same place exactly when the map and the position are the same"""
    ic = {k: v[0] for k, v in c.L["L_it"].items()}
    name = "%s.it_eq" % c.tag
    bad = []

    def body(w):
        same = w.choose(2)
        m = Flow(c.mod, w)
        m.iw = 64
        n = [w.A.atom("i"), w.A.atom("j")]
        for k, o in enumerate("ab"):
            m.obj(o, {ic["i.map_"]: (8, ("p", "map" if same else "map%d" % k, 0)), ic["i.count_"]: (8, n[k])})
        for o in ("map", "map0", "map1"):
            m.obj(o, {k: (8, w.A.atom("%s.%d" % (o if o == "map" else "map?", k))) for k in range(0, 64, 8)})
        r = m.run(c.mod.fns["h_it_eq"], [("p", "a", 0), ("p", "b", 0)])
        if m.trap or r is None or (r & 1) != int(bool(same and w.sign_in(n[0] - n[1], {0}))):
            bad.append("positions %s of %s: %s" % ("; ".join(w.log) or "any", "one map" if same else "two maps", r))
    try:
        explore(Alg(), body)
    except AnalysisError as e:
        return ctx.undecided(name, str(e))
    if bad:
        ctx.bad(name, name, "iterators compare wrongly: " + "; ".join(bad))
    else:
        ctx.ok(name)
    ctx.count("operations")
