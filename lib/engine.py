"""Disjunctive abstract interpretation of flattened LLVM IR.

Abstract state  = SSA environment + field-sensitive memory over symbolic bases/offsets (linear forms)
                + a polyhedron of integer facts + property typestate (ts) + additive resource measures.
Loops are not unrolled on data: the body is analysed once at a generic iteration k (induction variables in
closed form, other loop-carried cells havocked with template invariants kept by a Houdini fixpoint) and its
effect is summed over the iteration interval.  Nothing is executed and no solver is called.
"""
import re
from fractions import Fraction
from poly import *
from poly import _to_row
import ir


class AnalysisError(Exception):
    """the analysis cannot give an answer (never reported as a violation)"""


class NeedSplit(Exception):
    def __init__(self, cond):
        self.cond = cond


TRUE = ("true",)
FALSE = ("false",)


def c_ge(p):
    p = P(p)
    if p.is_const():
        return TRUE if p.cval() >= 0 else FALSE
    return ("ge", p)


def c_eq(p):
    p = P(p)
    if p.is_const():
        return TRUE if p.cval() == 0 else FALSE
    return ("eq", p)


def c_ne(p):
    return c_not(c_eq(p))


def c_not(c):
    k = c[0]
    if k == "true":
        return FALSE
    if k == "false":
        return TRUE
    if k == "ge":
        return ("ge", -c[1] - 1)
    if k == "eq":
        return ("ne", c[1])
    if k == "ne":
        return ("eq", c[1])
    if k == "and":
        return c_or(c_not(c[1]), c_not(c[2]))
    if k == "or":
        return c_and(c_not(c[1]), c_not(c[2]))
    raise AssertionError(c)


def c_and(a, b):
    if a == FALSE or b == FALSE:
        return FALSE
    if a == TRUE:
        return b
    if b == TRUE:
        return a
    return ("and", a, b)


def c_or(a, b):
    if a == TRUE or b == TRUE:
        return TRUE
    if a == FALSE:
        return b
    if b == FALSE:
        return a
    return ("or", a, b)


CONDK = {"true", "false", "ge", "eq", "ne", "and", "or"}


def is_cond(v):
    return isinstance(v, tuple) and v and v[0] in CONDK


def primitive(p, floor):
    from math import gcd
    g = 0
    for m, c in p.t.items():
        if isinstance(c, Fraction):
            return p
        if m:
            g = gcd(g, abs(c))
    if g <= 1:
        return p
    c0 = p.cval() if () in p.t else 0
    if c0 % g and not floor:
        return p
    d = {m: c // g for m, c in p.t.items() if m}
    if c0 // g:
        d[()] = c0 // g
    return Poly(d)


class Obj:
    """memory of one base: exact cells, ranges copied from elsewhere, and symbolic writes seen"""
    __slots__ = ("cells", "blits", "writes", "ver")

    def __init__(self, cells=None, blits=(), writes=(), ver=0):
        self.cells = cells or {}
        self.blits = blits
        self.writes = writes
        self.ver = ver

    def copy(self):
        return Obj(dict(self.cells), self.blits, self.writes, self.ver)


class State:
    def __init__(self):
        self.env = {}
        self.mem = {}
        self.facts = ()
        self.neqs = ()
        self.sm = {}
        self.meas = {}
        self.ts = {}
        self.log = None
        self.path = None

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        s.facts = self.facts
        s.neqs = self.neqs
        s.sm = self.sm
        s.meas = dict(self.meas)
        s.ts = dict(self.ts)
        s.log = self.log
        s.path = self.path
        return s

    # ---- events -------------------------------------------------------------------------------
    def event(self, *ev):
        self.log = (self.log, ev)

    def events(self, until=None):
        out = []
        l = self.log
        while l is not None and l is not until:
            out.append(l[1])
            l = l[0]
        out.reverse()
        return out

    # ---- facts --------------------------------------------------------------------------------
    def norm(self, p):
        return subst(p, self.sm) if self.sm else p

    def ent(self, p):
        """p >= 0 ?"""
        return entails(self.facts, self.norm(P(p)))

    def eq0(self, p):
        p = self.norm(P(p))
        if p.is_const():
            return p.cval() == 0
        return entails(self.facts, p) and entails(self.facts, -p)

    def ne0(self, p):
        p = self.norm(P(p))
        if p.is_const():
            return p.cval() != 0
        if p in self.neqs or (-p) in self.neqs:
            return True
        return entails(self.facts, p - 1) or entails(self.facts, -p - 1)

    def decide(self, c):
        k = c[0]
        if k == "true":
            return True
        if k == "false":
            return False
        if k == "ge":
            if self.ent(c[1]):
                return True
            if self.ent(-c[1] - 1):
                return False
            return None
        if k == "eq":
            if self.eq0(c[1]):
                return True
            if self.ne0(c[1]):
                return False
            return None
        if k == "ne":
            r = self.decide(("eq", c[1]))
            return None if r is None else not r
        if k == "and":
            a = self.decide(c[1])
            if a is False:
                return False
            b = self.decide(c[2])
            if b is False:
                return False
            return True if a and b else None
        if k == "or":
            a = self.decide(c[1])
            if a is True:
                return True
            b = self.decide(c[2])
            if b is True:
                return True
            return False if a is False and b is False else None
        raise AssertionError(c)

    def assume(self, c):
        """list of states refined by condition c (empty: infeasible)"""
        k = c[0]
        if k == "true":
            return [self]
        if k == "false":
            return []
        if k == "and":
            out = []
            for s in self.assume(c[1]):
                out += s.assume(c[2])
            return out
        if k == "or":
            out = list(self.assume(c[1]))
            for s in self.assume(c_not(c[1])):
                out += s.assume(c[2])
            return out
        d = self.decide(c)
        if d is True:
            return [self]
        if d is False:
            return []
        s = self.copy()
        p = primitive(self.norm(c[1]), k == "ge")
        if k == "ge":
            if entails(s.facts, -p):
                return s._seteq(p)
            s.facts = s.facts + (p,)
            if contradictory(s.facts, p):
                return []
            return [s]
        if k == "eq":
            return s._seteq(p)
        if k == "ne":
            if entails(s.facts, p):
                return s.assume(("ge", p - 1))
            if entails(s.facts, -p):
                return s.assume(("ge", -p - 1))
            s.neqs = s.neqs + (p,)
            return [s]
        raise AssertionError(c)

    def _seteq(self, p):
        """self is already a private copy"""
        best = None
        for m, c in p.t.items():
            if len(m) == 1 and c in (1, -1):
                t = m[0]
                rest = p - Poly({m: c})
                if t in deep_terms(rest):
                    continue
                # prefer eliminating the most recently created symbol; keep bases if possible
                score = (0 if t.ptr else 1, t.id)
                if best is None or score > best[0]:
                    best = (score, t, rest, c)
        if best is None:
            # try dividing by a common factor
            self.facts = self.facts + (p, -p)
            if contradictory(self.facts, p):
                return []
            return [self]
        _, t, rest, c = best
        val = -rest if c == 1 else rest
        one = {t: val}
        sm = {k: subst(v, one) for k, v in self.sm.items()}
        sm[t] = val
        # congruence: a substituted term whose arguments become equal to another term's
        for k in list(sm):
            if k is not t and k.args and t in deep_terms(k):
                k2 = bare(subst_term(k, one))
                if isinstance(k2, Poly):
                    d = subst(k2, sm) - sm[k]
                    if d.is_const():
                        if d.cval() != 0:
                            return []
                    else:
                        self.facts = self.facts + (d, -d)
                elif isinstance(k2, Term) and k2 not in sm and k2 not in deep_terms(sm[k]):
                    v2 = sm[k]
                    sm = {x: subst(y, {k2: v2}) for x, y in sm.items()}
                    sm[k2] = v2
        self.sm = sm
        nf = []
        extra = [P(t)] if t.nn else []
        if t.ub is not None:
            extra.append(P(t.ub) - P(t))
        for f in self.facts + tuple(extra):
            f = subst(f, sm)
            if f.is_const():
                if f.cval() < 0:
                    return []
                continue
            if f not in nf:
                nf.append(f)
        self.facts = tuple(nf)
        nn = []
        for q in self.neqs:
            q = subst(q, sm)
            if q.is_const():
                if q.cval() == 0:
                    return []
                continue
            nn.append(q)
        self.neqs = tuple(nn)
        if contradictory(self.facts):
            return []
        for f in self.facts:
            if any(len(m) == 1 and c in (1, -1) for m, c in f.t.items()) and entails(self.facts, -f):
                return self._seteq(f)
        return self._finish_eq()

    def _finish_eq(self):
        # disequalities may have become one sided
        todo = [q for q in self.neqs if entails(self.facts, q) or entails(self.facts, -q)]
        if todo:
            self.neqs = tuple(q for q in self.neqs if q not in todo)
            sts = [self]
            for q in todo:
                sts = [y for x in sts for y in x.assume(("ne", q))]
            return sts
        return [self]

    def assume1(self, c):
        r = self.assume(c)
        if not r:
            raise AnalysisError("assumption contradicts the state: %r" % (c,))
        if len(r) > 1:
            raise AnalysisError("assumption splits the state: %r" % (c,))
        return r[0]

    # ---- additive measures --------------------------------------------------------------------
    def madd(self, key, lo, hi, sign=1):
        d = dict(self.meas.get(key, {}))
        for p, c in ((P(lo), sign), (P(hi), -sign)):
            n = d.get(p, 0) + c
            if n:
                d[p] = n
            else:
                d.pop(p, None)
        self.meas[key] = d

    def normmeas(self):
        out = {}
        for key, d in self.meas.items():
            nk = subst(key, self.sm) if self.sm else key
            o = out.setdefault(nk, {})
            for p, c in d.items():
                p = self.norm(p)
                n = o.get(p, 0) + c
                if n:
                    o[p] = n
                else:
                    o.pop(p, None)
        self.meas = {k: d for k, d in out.items() if d}

    def at(self, key, p):
        """value of the measure `key` at point p; may raise NeedSplit"""
        d = self.meas.get(key, {})
        v = 0
        p = self.norm(P(p))
        for h, c in d.items():
            h = self.norm(h)
            r = self.decide(c_ge(p - h))
            if r is None:
                raise NeedSplit(c_ge(p - h))
            if r:
                v += c
        return v


def split_addr(p):
    """(base Term or None, offset Poly)"""
    base = None
    for m, c in p.t.items():
        if len(m) == 1 and m[0].ptr and c == 1:
            if base is not None:
                # several pointers: take the most recent one
                if m[0].id > base.id:
                    base = m[0]
            else:
                base = m[0]
    if base is None:
        return None, p
    return base, p - Poly.sym(base)


INTW = {"i1": 1, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128}


def signed(v, w):
    v = int(v)
    if v >= 1 << (w - 1):
        v -= 1 << w
    return v


class Engine:
    def __init__(self, mod, model, unroll=40, max_states=4000):
        self.mod = mod
        self.model = model
        self.unroll = unroll
        self.max_states = max_states
        self.wrap = False
        self.fn = None
        self.stats = {"insts": 0, "loops": 0, "states": 0, "calls": 0, "paths": 0}
        self.hcache = {}
        self.cur = None

    # ---- values -------------------------------------------------------------------------------
    def val(self, st, o):
        k = o[0]
        if k == "v":
            try:
                return st.env[o[1]]
            except KeyError:
                raise AnalysisError("undefined value %r at %s" % (o, self.cur and ir.where(self.cur)))
        if k == "i":
            w = o[2]
            if w == 1:
                return TRUE if int(o[1]) else FALSE
            return P(signed(o[1], w))
        if k == "f":
            f = float.fromhex(o[1]) if o[1] not in ("inf", "-inf", "nan", "-nan") else None
            if f is None:
                return P(term("fconst:" + o[1]))
            return P(Fraction(f)) if f != int(f) else P(int(f))
        if k == "null":
            return ZERO
        if k == "undef":
            return self.undef(o[1])
        if k == "g":
            return P(self.gsym(o[1])) + o[2]
        if k == "fn":
            return P(term("fn:" + o[1], ptr=True))
        if k in ("agg",):
            return [self.val(st, x) for x in o[1]]
        if k == "str":
            b = bytes.fromhex(o[1])
            return [P(x) for x in b]
        if k == "ce" and o[1] in ("inttoptr", "ptrtoint", "bitcast"):
            return self.val(st, o[2][0])
        raise AnalysisError("unsupported operand %r" % (o,))

    def gsym(self, name):
        return term("@" + name, ptr=True)

    def undef(self, ty):
        n = self.aggtypes(ty)
        if n is not None:
            return [self.undef(t) for t in n]
        return P(term("undef", ty))

    def aggtypes(self, ty):
        m = re.match(r"^<(\d+) x (.+)>$", ty)
        if m:
            return [m.group(2)] * int(m.group(1))
        m = re.match(r"^\[(\d+) x (.+)\]$", ty)
        if m:
            return [m.group(2)] * int(m.group(1))
        if ty.startswith("{"):
            inner = ty.strip()[1:-1].strip()
            out, d, cur = [], 0, ""
            for ch in inner:
                if ch in "{[<(":
                    d += 1
                if ch in "}])>":
                    d -= 1
                if ch == "," and d == 0:
                    out.append(cur.strip())
                    cur = ""
                else:
                    cur += ch
            if cur.strip():
                out.append(cur.strip())
            return out
        return None

    def tysize(self, ty):
        w = INTW.get(ty)
        if w:
            return max(1, w // 8)
        if ty == "ptr" or ty == "double":
            return 8
        if ty == "float":
            return 4
        raise AnalysisError("size of " + ty)

    def aggoffs(self, ty):
        """[(offset, elemtype)]"""
        n = self.aggtypes(ty)
        out = []
        off = 0
        for t in n:
            s = self.full_size(t)
            a = self.align(t)
            if not ty.startswith("<"):
                off = (off + a - 1) // a * a
            out.append((off, t))
            off += s
        return out

    def align(self, ty):
        n = self.aggtypes(ty)
        if n is None:
            return self.tysize(ty)
        if ty.startswith("<"):
            return self.full_size(ty)
        return max([self.align(t) for t in n] or [1])

    def full_size(self, ty):
        n = self.aggtypes(ty)
        if n is None:
            return self.tysize(ty)
        if ty.startswith("<") or ty.startswith("["):
            return len(n) * self.full_size(n[0]) if n else 0
        offs = self.aggoffs(ty)
        if not offs:
            return 0
        o, t = offs[-1]
        e = o + self.full_size(t)
        a = self.align(ty)
        return (e + a - 1) // a * a

    # ---- memory -------------------------------------------------------------------------------
    def disjoint(self, st, o1, s1, o2, s2):
        """byte ranges [o1,o1+s1) and [o2,o2+s2) provably disjoint"""
        d = o2 - o1
        if d.is_const():
            c = d.cval()
            return c >= s1 or -c >= s2
        from math import gcd
        g = 0
        for m, c in d.t.items():
            if m:
                if isinstance(c, Fraction):
                    return False
                g = gcd(g, abs(c))
        r = d.cval() % g if g else 0
        if g > 1 and r >= s1 and g - r >= s2:
            return True
        return st.ent(d - s1) or st.ent(-d - s2)

    def same(self, st, a, b):
        if a == b:
            return True
        return False

    def is_fresh_object(self, base):
        return base.op.startswith("alloca") or base.op.startswith("heap")

    def load(self, st, addr, size, ty, inst=None):
        n = self.aggtypes(ty)
        if n is not None:
            return [self.load(st, addr + o, self.full_size(t), t, inst) for o, t in self.aggoffs(ty)]
        addr = st.norm(addr)
        base, off = split_addr(addr)
        if base is None:
            st.event("badptr", "load", addr, inst)
            return P(fresh("badload", ptr=(ty == "ptr"), nn=True))
        v = self.model.on_load(self, st, base, off, size, ty, inst)
        if v is not None:
            return v
        o = st.mem.get(base)
        return self.load_obj(st, base, o, off, size, ty)

    def load_obj(self, st, base, o, off, size, ty):
        if base.op.startswith("@"):
            g = self.mod.globals.get(base.op[1:])
            if g and g["const"] and "init" in g:
                if off.is_const():
                    v = self.ginit(g, off.cval(), size, ty)
                    if v is not None:
                        return v
        if o is not None:
            c = o.cells.get(off)
            if c is None:
                for k, cc in o.cells.items():
                    if cc is not None and not (k - off).is_const() and st.eq0(k - off):
                        c = cc
                        break
                    if st.norm(k) == off:
                        c = cc
                        break
            if c is not None:
                if c[0] == size:
                    v = c[1]
                    if isinstance(v, Poly):
                        v = st.norm(v)
                    return v
                if c[0] > size and isinstance(c[1], Poly) and c[1].is_const():
                    return P(signed(int(c[1].cval()) & ((1 << (8 * size)) - 1), 64))
                v = self.narrow(c[1], 0, c[0], size, ty)
                if v is not None:
                    return v
                return P(term("part", c[1] if isinstance(c[1], Poly) else repr(c[1]), size, nn=True))
            for k, cc in o.cells.items():
                if not self.disjoint(st, k, cc[0], off, size):
                    # overlapping in an unknown way
                    d = off - k
                    if d.is_const() and 0 <= d.cval() < cc[0] and isinstance(cc[1], Poly) and cc[1].is_const() and d.cval() + size <= cc[0]:
                        return P((int(cc[1].cval()) >> (8 * d.cval())) & ((1 << (8 * size)) - 1))
                    v = self.narrow(cc[1], d.cval(), cc[0], size, ty) if d.is_const() else None
                    if v is not None:
                        return v
                    return P(self.unk(base, off, size, ty, o.ver, ("ov", k)))
            for (boff, n, kind, sb, soff, snap) in reversed(o.blits):
                boff = st.norm(boff)
                d = off - boff
                n_ = st.norm(n)
                inside = st.ent(d) and st.ent(n_ - d - size)
                if inside:
                    if kind == "fill":
                        if soff == 0 or (isinstance(soff, Poly) and soff.is_const() and soff.cval() == 0):
                            return ZERO if ty != "i1" else FALSE
                        return P(term("fill", P(soff), size, nn=True))
                    return self.load_obj(st, sb, snap, st.norm(soff) + d, size, ty)
                out = st.ent(-d - size) or st.ent(d - n_)
                if not out:
                    return P(self.unk(base, off, size, ty, o.ver, ("blit", boff)))
            for (woff, wn) in o.writes:
                woff = st.norm(woff)
                d = off - woff
                if not (st.ent(-d - size) or st.ent(d - st.norm(wn)) or
                        (st.norm(wn).is_const() and self.disjoint(st, woff, st.norm(wn).cval(), off, size))):
                    return P(self.unk(base, off, size, ty, o.ver, ("wr", len(o.writes))))
        return P(self.init(base, off, size, ty, o.ver if o else 0))

    def narrow(self, v, d, whole, size, ty):
        """a part of a value that was loaded as a whole and is otherwise unchanged"""
        if not isinstance(v, Poly) or len(v.t) != 1 or d < 0 or d + size > whole:
            return None
        m, k = next(iter(v.t.items()))
        if k != 1 or len(m) != 1 or m[0].op != "ld" or m[0].args[2] != whole:
            return None
        t = m
        b, o, _, ver = t[0].args[:4]
        return P(self.init(b, P(o) + int(d), size, ty, ver))

    def unk(self, base, off, size, ty, ver, why):
        return term("unk", base, off, size, ver, str(why), ptr=(ty == "ptr"), nn=ty in INTW or ty == "ptr",
                    ub=(1 << INTW[ty]) - 1 if ty in INTW and INTW[ty] < 64 else None)

    def init(self, base, off, size, ty, ver):
        isint = ty in INTW
        ub = None
        if isint and INTW[ty] < 64:
            ub = (1 << INTW[ty]) - 1
        if ty == "i8" and self.model.bool_field(base, off):
            ub = 1
        return term("ld", base, off, size, ver, ty == "ptr", ptr=(ty == "ptr"), nn=isint or ty == "ptr", ub=ub)

    def ginit(self, g, off, size, ty):
        def flat(i):
            """the bytes of a constant made of characters only"""
            if i[0] == "str":
                return bytes.fromhex(i[1])
            if i[0] == "i" and int(i[2]) == 8:
                return bytes([int(i[1]) & 255])
            if i[0] == "agg":
                ps = [flat(x) for x in i[1]]
                return None if any(x is None for x in ps) else b"".join(ps)
            return None

        def go(init, offs, stride, off, ity):
            if init[0] == "str":
                b = bytes.fromhex(init[1])
                if off + size <= len(b):
                    return P(int.from_bytes(b[off:off + size], "little"))
                return None
            if init[0] == "agg":
                el = init[1]
                b = flat(init)          # characters have no padding between them
                if b is not None:
                    return P(int.from_bytes(b[off:off + size], "little")) if off + size <= len(b) else None
                tys = self.aggoffs(ity) if self.aggtypes(ity) is not None else None
                if tys is None:
                    return None
                for (o, t), x in zip(tys, el):
                    fs = self.full_size(t)
                    if o <= off < o + fs:
                        if x[0] in ("agg", "str"):
                            return go(x, None, None, off - o, t)
                        if o == off and fs == size:
                            return self.val(State(), x)
                        return None
                return None
            if init[0] == "i" and off == 0:
                return P(signed(init[1], init[2]))
            if init[0] == "f" and off == 0:
                return self.val(State(), init)
            if init[0] in ("null", "zero"):
                return ZERO
            if init[0] in ("g", "fn") and off == 0:
                return self.val(State(), init)
            return None
        try:
            return go(g["init"], g.get("offs"), g.get("stride"), off, g.get("ity", ""))
        except AnalysisError:
            return None

    def wobj(self, st, base):
        o = st.mem.get(base)
        o = o.copy() if o is not None else Obj()
        st.mem[base] = o
        return o

    def store(self, st, addr, v, size, inst=None, ty=None):
        if isinstance(v, list):
            offs = self.aggoffs(ty)
            for (o, t), x in zip(offs, v):
                self.store(st, addr + o, x, self.full_size(t), inst, t)
            return
        addr = st.norm(addr)
        base, off = split_addr(addr)
        if base is None:
            st.event("badptr", "store", addr, inst)
            return
        if self.model.on_store(self, st, base, off, size, v, inst):
            return
        o = self.wobj(st, base)
        for k in list(o.cells):
            cc = o.cells[k]
            kn = st.norm(k)
            if kn != k:
                del o.cells[k]
                o.cells[kn] = cc
        for k in list(o.cells):
            if k == off:
                continue
            if not self.disjoint(st, k, o.cells[k][0], off, size):
                del o.cells[k]
                o.writes = o.writes + ((k, P(size)),) if False else o.writes
        if isinstance(v, tuple) and is_cond(v):
            v = self.b2i(st, v)
        o.cells[off] = (size, v)
        if not off.is_const():
            if not any(st.norm(w) == off and wn == P(size) for w, wn in o.writes):
                o.writes = o.writes + ((off, P(size)),)

    def blit(self, st, dst, src, n, inst=None):
        """memcpy"""
        dst, src, n = st.norm(dst), st.norm(src), st.norm(n)
        if n.is_const() and n.cval() == 0:
            return
        db, do = split_addr(dst)
        sb, so = split_addr(src)
        if db is None or sb is None:
            if not st.eq0(n):
                st.event("badptr", "memcpy", dst if db is None else src, inst, n)
            return
        snap = st.mem.get(sb)
        if snap is None:
            snap = Obj()
        snap = snap.copy()
        o = self.wobj(st, db)
        self._clear_range(st, o, do, n)
        o.blits = o.blits + ((do, n, "copy", sb, so, snap),)

    def fill(self, st, dst, byte, n, inst=None):
        dst, n = st.norm(dst), st.norm(n)
        if n.is_const() and n.cval() == 0:
            return
        db, do = split_addr(dst)
        if db is None:
            if not st.eq0(n):
                st.event("badptr", "memset", dst, inst, n)
            return
        o = self.wobj(st, db)
        self._clear_range(st, o, do, n)
        o.blits = o.blits + ((do, n, "fill", None, byte, None),)

    def _clear_range(self, st, o, do, n):
        for k in list(o.cells):
            sz = o.cells[k][0]
            kn = st.norm(k)
            if n.is_const():
                if self.disjoint(st, kn, sz, do, n.cval()):
                    continue
            elif st.ent(do - kn - sz) or st.ent(kn - do - n):
                continue
            inside = st.ent(kn - do) and st.ent(do + n - kn - sz)
            del o.cells[k]
            if not inside:
                o.writes = o.writes + ((kn, P(sz)),)

    def havoc(self, st, base):
        o = st.mem.get(base)
        st.mem[base] = Obj(ver=(o.ver if o else 0) + 1)

    def b2i(self, st, c):
        d = st.decide(c)
        if d is not None:
            return P(1 if d else 0)
        return P(term("b2i", c, nn=True, ub=1))

    # ---- conditions ---------------------------------------------------------------------------
    def tocond(self, v):
        if is_cond(v):
            return v
        if isinstance(v, Poly):
            if v.is_const():
                return TRUE if v.cval() else FALSE
            if len(v.t) == 1:
                (m, c), = v.t.items()
                if c == 1 and len(m) == 1 and m[0].op == "b2i":
                    return m[0].args[0]
            return c_ne(v)
        raise AnalysisError("not a condition: %r" % (v,))

    def icmp(self, st, pred, a, b, ty_ptr):
        """list of (state, cond)"""
        if is_cond(a) or is_cond(b):
            a, b = self.tocond(a), self.tocond(b)
            if pred == "eq":
                return [(st, c_or(c_and(a, b), c_and(c_not(a), c_not(b))))]
            if pred == "ne":
                return [(st, c_or(c_and(a, c_not(b)), c_and(c_not(a), b)))]
            raise AnalysisError("icmp on bools")
        d = st.norm(a) - st.norm(b)
        if pred in ("eq", "ne"):
            # boolean wrapped in an integer compared with a constant
            c = c_eq(d)
            if ty_ptr:
                bb, bo = split_addr(d)
                if bb is not None and bb.op[:1] == "@" and bo.is_const() and not d.is_const():
                    c = FALSE       # the address of a global is not null
                (ba, oa), (b2, ob) = split_addr(st.norm(a)), split_addr(st.norm(b))
                if ba is not None and b2 is not None and ba is not b2 and st.eq0(oa) and st.eq0(ob) and all(
                        self.is_fresh_object(x) or ("object", x) in st.ts for x in (ba, b2)):
                    c = FALSE       # two distinct objects
            for x, y in ((a, b), (b, a)):
                if isinstance(y, Poly) and y.is_const() and y.cval() in (0, 1) and len(x.t) == 1:
                    (m, k), = x.t.items()
                    if k == 1 and len(m) == 1 and m[0].op == "b2i":
                        c = m[0].args[0] if y.cval() == 1 else c_not(m[0].args[0])
                        break
            return [(st, c if pred == "eq" else c_not(c))]
        if pred[0] == "u":
            sts = [(st, None, None)]
            res = []
            a, b = st.norm(a), st.norm(b)
            def signs(s, p):
                p = s.norm(p)
                if p.is_const():
                    return [(s, p.cval() >= 0)]
                if ty_ptr or s.ent(p):
                    return [(s, True)]
                if s.ent(-p - 1):
                    return [(s, False)]
                return [(x, True) for x in s.assume(c_ge(p))] + [(x, False) for x in s.assume(c_ge(-p - 1))]
            for s1, sa in signs(st, a):
                for s2, sb in signs(s1, b):
                    if sa == sb:
                        res.append((s2, self._ord(pred[1:], s2.norm(a) - s2.norm(b))))
                    else:
                        # exactly one is negative, i.e. huge as unsigned
                        gt = not sa
                        v = {"gt": gt, "ge": gt, "lt": not gt, "le": not gt}[pred[1:]]
                        res.append((s2, TRUE if v else FALSE))
            return res
        return [(st, self._ord(pred[1:], d))]

    def _ord(self, p, d):
        if p == "gt":
            return c_ge(d - 1)
        if p == "ge":
            return c_ge(d)
        if p == "lt":
            return c_ge(-d - 1)
        return c_ge(-d)

    # ---- arithmetic helpers -------------------------------------------------------------------
    def divc(self, st, a, c, signed_=False):
        """a / c (unsigned or exact), c const > 0; returns poly, may add facts to st (in place)"""
        a = st.norm(a)
        if a.is_const() and a.cval() >= 0:
            return P(a.cval() // c)
        e = a.div_exact(c)
        if e is not None:
            return e
        W = Poly({m: k for m, k in a.t.items() if k % c == 0 and m})
        if W.t and st.ent(a - W) and st.ent(a):
            return W.div_exact(c) + self.divc(st, a - W, c)
        q = term("div", a, c, nn=True)
        st.facts = st.facts + (a - P(q) * c, P(q) * c + (c - 1) - a)
        return P(q)

    def binop(self, st, op, a, b, ty):
        """list of (state, val)"""
        if isinstance(a, list):
            out = []
            for x, y in zip(a, b):
                r = self.binop(st, op, x, y, re.sub(r"^<\d+ x (.+)>$", r"\1", ty))
                out.append(r[0][1])
            return out and [(st, out)]
        if ty == "i1":
            ca, cb = self.tocond(a), self.tocond(b)
            if op == "and":
                return [(st, c_and(ca, cb))]
            if op == "or":
                return [(st, c_or(ca, cb))]
            if op == "xor":
                if cb == TRUE:
                    return [(st, c_not(ca))]
                if ca == TRUE:
                    return [(st, c_not(cb))]
                return [(st, c_or(c_and(ca, c_not(cb)), c_and(c_not(ca), cb)))]
            raise AnalysisError("i1 op " + op)
        a, b = st.norm(P(a)), st.norm(P(b))
        w = INTW.get(ty, 64)
        if self.wrap and ty == "i64" and op in ("add", "sub") and st.ent(a) and st.ent(b):
            # unsigned arithmetic modulo 2^64, both ways
            r = a + b if op == "add" else a - b
            M = P(1 << 64)
            over = c_ge(r - M) if op == "add" else c_ge(-r - 1)
            return [(s, r) for s in st.assume(c_not(over))] + [(s, r - M if op == "add" else r + M) for s in st.assume(over)]
        if op in ("add", "fadd"):
            r = a + b
        elif op in ("sub", "fsub"):
            r = a - b
        elif op in ("mul", "fmul"):
            r = a * b
        elif op == "shl" and b.is_const():
            r = a * (1 << int(b.cval()))
        elif op in ("udiv",) and b.is_const() and b.cval() > 0:
            r = self.divc(st, a, b.cval())
        elif op in ("sdiv", "ashr", "lshr") and b.is_const() and b.cval() >= 0:
            c = b.cval() if op == "sdiv" else 1 << int(b.cval())
            if a.is_const() and a.cval() >= 0:
                r = P(a.cval() // c)
            else:
                e = a.div_exact(c)
                if e is not None:
                    r = e
                elif st.ent(a) and c > 0:
                    r = self.divc(st, a, c)
                else:
                    r = P(term(op, a, b, ty))
        elif op == "urem" and b.is_const() and b.cval() > 0:
            r = a - self.divc(st, a, b.cval()) * b.cval()
        elif op == "and" and b.is_const() and b.cval() >= 0 and (int(b.cval()) & (int(b.cval()) + 1)) == 0 and st.ent(a):
            c = int(b.cval()) + 1
            r = a - self.divc(st, a, c) * c
        elif op == "and" and b.is_const() and b.cval() < -1 and (-int(b.cval()) & (-int(b.cval()) - 1)) == 0 and st.ent(a):
            r = self.divc(st, a, -int(b.cval())) * -int(b.cval())
        elif op == "fdiv":
            if b.is_const() and b.cval() != 0:
                x = Fraction(1) / Fraction(b.cval())
                r = a * P(int(x) if x.denominator == 1 else x)
            else:
                r = a * P(inv(b))
        elif a.is_const() and b.is_const() and op in ("and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem"):
            m = (1 << w) - 1
            x, y = int(a.cval()) & m, int(b.cval()) & m
            if op in ("udiv", "urem") and y == 0:
                r = P(term(op, a, b, ty))
            else:
                r = {"and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y,
                     "shl": lambda: (x << y) & m if y < w else 0, "lshr": lambda: x >> y if y < w else 0,
                     "ashr": lambda: (signed(x, w) >> y) & m if y < w else 0,
                     "udiv": lambda: x // y, "urem": lambda: x % y}[op]()
                r = P(signed(r, w))
            return [(st, r)]
        elif op == "xor" and b.is_const() and b.cval() == -1:
            r = -a - 1
        elif op in ("urem", "udiv") and w == 64 and st.ent(b - 1) and st.ent(a) and st.ent(b + b - 1 - a):
            # at most one turn round a ring
            return [(s, a if op == "urem" else P(0)) for s in st.assume(c_ge(b - 1 - a))] + [(s, a - b if op == "urem" else P(1)) for s in st.assume(c_ge(a - b))]
        else:
            if op in ("and", "or", "xor", "mul") and repr(b) < repr(a):
                a, b = b, a
            nn = op in ("and", "lshr", "udiv", "urem", "or", "xor", "shl") and st.ent(a) or op == "urem" and st.ent(b - 1)
            t = term(op, a, b, ty, nn=nn)
            r = P(t)
            if op == "and" and st.ent(a) and st.ent(b):
                st.facts = st.facts + (a - r, b - r)
            if op == "lshr" and st.ent(a):
                st.facts = st.facts + (a - r,)
            if op == "urem" and st.ent(b - 1):
                st.facts = st.facts + ((b - 1 - r, a - r) if st.ent(a) else (b - 1 - r,))
            if op == "udiv" and st.ent(a) and st.ent(b - 1):
                st.facts = st.facts + (a - r,)
        # wrap small constants
        if w < 64 and r.is_const() and op not in ("fadd", "fsub", "fmul", "fdiv") and not isinstance(r.cval(), Fraction):
            r = P(signed(int(r.cval()) & ((1 << w) - 1), w))
        return [(st, r)]

    # ---- single instruction -------------------------------------------------------------------
    def step(self, st, I):
        """list of successor states of a non-terminator instruction"""
        op = I["op"]
        env = st.env
        i = I["id"]
        if op == "getelementptr":
            p = self.val(st, I["base"])
            if isinstance(p, list):
                raise AnalysisError("vector gep")
            p = p + I["off"]
            for v, s in I["vars"]:
                x = self.val(st, v)
                if is_cond(x):
                    x = self.b2i(st, x)
                p = p + x * s
            env[i] = st.norm(p)
            return [st]
        if op == "load":
            if "ord" in I or I.get("vol"):
                r = self.model.on_atomic(self, st, "load", I, self.val(st, I["p"]), None, None)
                if r is not None:
                    for s, v in r:
                        s.env[i] = v
                    return [s for s, v in r]
            v = self.load(st, self.val(st, I["p"]), I["size"], I["ty"], I)
            if I["ty"] == "i1":
                v = self.tocond(v)
            env[i] = v
            return [st]
        if op == "store":
            if "ord" in I or I.get("vol"):
                r = self.model.on_atomic(self, st, "store", I, self.val(st, I["p"]), self.val(st, I["v"]), None)
                if r is not None:
                    return [s for s, v in r]
            self.store(st, self.val(st, I["p"]), self.val(st, I["v"]), I["size"], I, I["vty"])
            return [st]
        if op == "icmp":
            a, b = self.val(st, I["a"][0]), self.val(st, I["a"][1])
            isptr = I["a"][0][0] == "null" or I["a"][1][0] == "null" or self._isptr(a) or self._isptr(b)
            out = []
            for s, c in self.icmp(st, I["pred"], a, b, isptr):
                if s is st or len(s.env) == 0:
                    pass
                s = s if s is st else s.copy()
                s.env[i] = c
                out.append(s)
            return out
        if op == "fcmp":
            a, b = st.norm(P(self.val(st, I["a"][0]))), st.norm(P(self.val(st, I["a"][1])))
            env[i] = self.fcmp(I["pred"], a, b)
            return [st]
        if op in ("add", "sub", "mul", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem", "and", "or", "xor",
                  "fadd", "fsub", "fmul", "fdiv", "frem"):
            out = []
            for s, v in self.binop(st, op, self.val(st, I["a"][0]), self.val(st, I["a"][1]), I["ty"]):
                s.env[i] = v
                out.append(s)
            return out
        if op == "fneg":
            v = self.val(st, I["a"][0])
            env[i] = [-x for x in v] if isinstance(v, list) else -v
            return [st]
        if op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "addrspacecast", "fpext", "fptrunc",
                  "sitofp", "uitofp", "fptosi", "fptoui", "freeze"):
            env[i] = self.cast(st, op, self.val(st, I["a"][0]), I.get("sty", I["ty"]), I["ty"])
            return [st]
        if op == "select":
            c = self.tocond(self.val(st, I["a"][0]))
            a, b = self.val(st, I["a"][1]), self.val(st, I["a"][2])
            d = st.decide(c)
            if d is not None:
                env[i] = a if d else b
                return [st]
            if is_cond(a) and is_cond(b):
                env[i] = c_or(c_and(c, a), c_and(c_not(c), b))
                return [st]
            out = []
            for cc, v in ((c, a), (c_not(c), b)):
                for s in st.assume(cc):
                    s = s.copy()
                    s.env[i] = v
                    out.append(s)
            return out
        if op == "alloca":
            b = term("alloca:%s:%s:%d" % (self.fn.name, I.get("name", ""), i), ptr=True)
            env[i] = P(b)
            st.mem[b] = Obj(ver=-1)
            return st.assume(c_ge(P(b) - 1))
        if op == "extractvalue":
            v = self.val(st, I["a"][0])
            for k in I["idx"]:
                if not isinstance(v, list):
                    raise AnalysisError("a part of the unknown value %r is used at %s" % (v, ir.where(I)))
                v = v[k]
            env[i] = v
            return [st]
        if op == "insertvalue":
            v = self.val(st, I["a"][0])
            env[i] = self._ins(v, I["idx"], self.val(st, I["a"][1]))
            return [st]
        if op == "extractelement":
            v = self.val(st, I["a"][0])
            k = self.val(st, I["a"][1])
            if isinstance(v, list) and k.is_const():
                env[i] = v[k.cval()]
            else:
                env[i] = P(term("extract", repr(v), k))
            return [st]
        if op == "insertelement":
            v = self.val(st, I["a"][0])
            k = self.val(st, I["a"][2])
            if not (isinstance(v, list) and k.is_const()):
                raise AnalysisError("insertelement")
            v = list(v)
            v[k.cval()] = self.val(st, I["a"][1])
            env[i] = v
            return [st]
        if op == "shufflevector":
            a, b = self.val(st, I["a"][0]), self.val(st, I["a"][1])
            j = list(a) + list(b)
            env[i] = [j[m] if m >= 0 else P(term("undef", "lane")) for m in I["mask"]]
            return [st]
        if op == "fence":
            st.event("fence", I)
            return [st]
        if op == "atomicrmw":
            r = self.model.on_atomic(self, st, I["rmw"], I, self.val(st, I["p"]), self.val(st, I["v"]), None)
            if r is None:
                r = self.atomic_default(st, I["rmw"], I, self.val(st, I["p"]), self.val(st, I["v"]))
            for s, v in r:
                s.env[i] = v
            return [s for s, v in r]
        if op == "cmpxchg":
            r = self.model.on_atomic(self, st, "cmpxchg", I, self.val(st, I["p"]), self.val(st, I["v"]), self.val(st, I["cmp"]))
            if r is None:
                raise AnalysisError("cmpxchg without model")
            for s, v in r:
                s.env[i] = v
            return [s for s, v in r]
        if op == "call":
            return self.call(st, I)
        raise AnalysisError("unsupported instruction %s at %s" % (op, ir.where(I)))

    def atomic_default(self, st, kind, I, p, v):
        old = self.load(st, p, I["size"], I["ty"], I)
        new = {"add": lambda: old + v, "sub": lambda: old - v, "xchg": lambda: v}.get(kind)
        if new is None:
            raise AnalysisError("atomicrmw " + kind)
        self.store(st, p, new(), I["size"], I, I["ty"])
        return [(st, old)]

    def _isptr(self, v):
        return isinstance(v, Poly) and any(len(m) == 1 and m[0].ptr for m in v.t)

    def _ins(self, v, idx, x):
        v = list(v)
        if len(idx) == 1:
            v[idx[0]] = x
        else:
            v[idx[0]] = self._ins(v[idx[0]], idx[1:], x)
        return v

    def fcmp(self, pred, a, b):
        p = pred[1:] if pred[0] in "ou" and len(pred) == 3 else pred
        if a.is_const() and b.is_const() and p in ("lt", "le", "gt", "ge", "eq", "ne"):
            x, y = a.cval(), b.cval()
            return TRUE if {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y, "eq": x == y, "ne": x != y}[p] else FALSE
        if p in ("gt", "ge"):
            a, b = b, a
            p = {"gt": "lt", "ge": "le"}[p]
        if p == "lt":
            return c_ne(P(term("flt", a, b, nn=True, ub=1)))
        if p == "le":
            return c_eq(P(term("flt", b, a, nn=True, ub=1)))
        if p in ("eq", "ne"):
            if repr(b) < repr(a):
                a, b = b, a
            t = c_ne(P(term("feq", a, b, nn=True, ub=1)))
            return t if p == "eq" else c_not(t)
        if pred in ("true", "false"):
            return TRUE if pred == "true" else FALSE
        return c_ne(P(term("fcmp:" + pred, a, b, nn=True, ub=1)))

    def cast(self, st, op, v, sty, ty):
        if isinstance(v, list):
            n = self.aggtypes(ty)
            s = self.aggtypes(sty)
            if n is not None and len(n) == len(v):
                return [self.cast(st, op, x, s[0], n[0]) for x in v]
            if op == "freeze":
                return v
            raise AnalysisError("aggregate cast %s %s -> %s" % (op, sty, ty))
        if op == "freeze":
            return v
        if sty == "i1" and op in ("zext", "sext", "uitofp", "sitofp"):
            b = self.b2i(st, self.tocond(v))
            return b if op in ("zext", "uitofp") else -b
        if op == "trunc":
            if ty == "i1":
                if is_cond(v):
                    return v
                v = st.norm(v)
                if v.is_const():
                    return TRUE if int(v.cval()) & 1 else FALSE
                if st.ent(v) and st.ent(1 - v):
                    return self.tocond(v)
                return c_ne(P(term("lowbit", v, nn=True, ub=1)))
            w = INTW[ty]
            if is_cond(v):
                return self.b2i(st, v)
            v = st.norm(v)
            if v.is_const():
                return P(signed(int(v.cval()) & ((1 << w) - 1), w))
            if st.ent(v) and st.ent((1 << w) - 1 - v):
                return v
            if len(v.t) == 1:
                (m, c), = v.t.items()
                if c == 1 and len(m) == 1 and m[0].op in ("zext", "sext") and m[0].args[1] == ty:
                    return m[0].args[0]
            return P(term("trunc", v, ty, nn=True, ub=(1 << w) - 1))
        if op in ("zext",):
            v = st.norm(v)
            if v.is_const():
                w = INTW[sty]
                return P(int(v.cval()) & ((1 << w) - 1))
            if st.ent(v):
                return v
            return P(term("zext", v, sty, nn=True, ub=(1 << INTW[sty]) - 1))
        if op == "sext":
            v = st.norm(v)
            if v.is_const():
                return v
            w = INTW[sty]
            if self.model.sext_identity or (st.ent(v) and st.ent((1 << (w - 1)) - 1 - v)):
                return v
            return P(term("sext", v, sty))
        if op in ("ptrtoint", "inttoptr", "fpext", "fptrunc", "addrspacecast"):
            return v
        if op == "bitcast":
            if sty == ty or (sty == "ptr") == (ty == "ptr") and sty[0] == ty[0] == "i":
                return v
            if isinstance(v, Poly) and self.aggtypes(ty) is not None:
                return [P(term("bits", v, k, ty)) for k in range(len(self.aggtypes(ty)))]
            return P(term("bitcast", v if isinstance(v, Poly) else repr(v), ty, nn=ty in INTW))
        if is_cond(v):
            v = self.b2i(st, v)
        v = st.norm(v)
        if op in ("sitofp", "uitofp"):
            return v
        return P(term(op, v, ty))

    # ---- calls --------------------------------------------------------------------------------
    def call(self, st, I):
        self.stats["calls"] += 1
        fn = I.get("fn")
        if fn and fn.startswith("llvm."):
            r = self.intrinsic(st, I, fn)
            if r is not None:
                return r
        args = [self.val(st, a) for a in I.get("args", [])]
        args = [st.norm(a) if isinstance(a, Poly) else a for a in args]
        if I.get("asm") is not None:
            st.event("asm", I["asm"], I)
            if I["ty"] != "void":
                st.env[I["id"]] = P(fresh("asm"))
            return [st]
        if fn is None:
            p = args and None
            callee = st.norm(self.val(st, I["ptr"]))
            nm = None
            if len(callee.t) == 1:
                (m, c), = callee.t.items()
                if c == 1 and len(m) == 1 and m[0].op.startswith("fn:"):
                    nm = m[0].op[3:]
            if nm is None:
                r = self.model.indirect(self, st, I, callee, args)
                if r is None:
                    raise AnalysisError("unmodelled indirect call at %s" % ir.where(I))
                return self._finish(I, r)
            fn = nm
        dem = self.mod.dname(fn)
        h = self.hcache.get(fn)
        if h is None:
            h = self.model.find(fn, dem)
            self.hcache[fn] = h or False
        if not h:
            f = self.mod.fns.get(fn)
            if f is not None and f.blocks is not None and not f.opaque and self.model.enter(fn, dem):
                return self.inline(st, I, f, args)
            raise AnalysisError("unmodelled call to %s at %s" % (dem, ir.where(I)))
        r = h(self, st, I, args)
        if r is DIE:
            return DIE
        return self._finish(I, r)

    def _finish(self, I, r):
        out = []
        for s, v in r:
            if I["ty"] != "void":
                s.env[I["id"]] = v if v is not None else P(fresh("ret", ptr=I["ty"] == "ptr", nn=I["ty"] in INTW or I["ty"] == "ptr"))
                if I["ty"] == "i1":
                    s.env[I["id"]] = self.tocond(s.env[I["id"]])
            out.append(s)
        return out

    def inline(self, st, I, f, args):
        """context-sensitive analysis of a callee that was not flattened (e.g. recursion-free indirect target)"""
        sub = State()
        saved_env, saved_fn = st.env, self.fn
        s0 = st.copy()
        s0.env = {}
        for n, a in enumerate(args):
            s0.env[n] = a
        depth = getattr(self, "_depth", 0)
        if depth > 12:
            raise AnalysisError("call depth at " + f.dem)
        self._depth = depth + 1
        try:
            outs = self.run(f, s0)
        finally:
            self._depth = depth
            self.fn = saved_fn
        res = []
        for o in outs:
            if o[0] == "ret":
                s = o[1]
                s.env = dict(saved_env)
                if I["ty"] != "void":
                    s.env[I["id"]] = o[2]
                res.append(s)
            elif o[0] == "die":
                self.pending_die.append(o)
        return res

    def intrinsic(self, st, I, fn):
        a = I.get("args", [])
        if fn.startswith("llvm.lifetime.start"):
            p = self.val(st, a[1])
            b, off = split_addr(st.norm(p))
            if b is not None and b.op.startswith("alloca"):
                o = st.mem.get(b)
                st.mem[b] = Obj(ver=(o.ver if o else 0) - 1)
                self.model.on_lifetime(self, st, b, "start")
            return [st]
        if fn.startswith("llvm.lifetime.end"):
            p = self.val(st, a[1])
            b, off = split_addr(st.norm(p))
            if b is not None:
                self.model.on_lifetime(self, st, b, "end")
            return [st]
        if fn.startswith(("llvm.experimental.noalias", "llvm.assume", "llvm.dbg", "llvm.donothing", "llvm.invariant", "llvm.stacksave", "llvm.stackrestore")):
            if I["ty"] != "void":
                st.env[I["id"]] = P(fresh("x", ptr=True))
            return [st]
        if fn.startswith("llvm.memcpy") or fn.startswith("llvm.memmove"):
            args = [self.val(st, x) for x in a]
            return [s for s, v in self.model.memcpy(self, st, I, args[0], args[1], args[2])]
        if fn.startswith("llvm.memset"):
            args = [self.val(st, x) for x in a]
            return [s for s, v in self.model.memset(self, st, I, args[0], args[1], args[2])]
        if fn.startswith("llvm.launder") or fn.startswith("llvm.strip.invariant") or fn.startswith("llvm.expect") or fn.startswith("llvm.threadlocal.address"):
            st.env[I["id"]] = self.val(st, a[0])
            return [st]
        m = re.match(r"llvm\.(umin|umax|smin|smax)\.i", fn)
        if m:
            x, y = self.val(st, a[0]), self.val(st, a[1])
            out = []
            for s, c in self.icmp(st, m.group(1)[0] + "le", x, y, False):
                for cc, v in ((c, x if "min" in m.group(1) else y), (c_not(c), y if "min" in m.group(1) else x)):
                    for s2 in s.assume(cc):
                        s2 = s2.copy()
                        s2.env[I["id"]] = v
                        out.append(s2)
            return out
        m = re.match(r"llvm\.([us])(add|mul|sub)\.with\.overflow", fn)
        if m and m.group(1) == "u" and m.group(2) != "sub":
            # sizes are taken not to wrap (a stated assumption, as for + and * themselves)
            x, y = self.val(st, a[0]), self.val(st, a[1])
            st.env[I["id"]] = [x * y if m.group(2) == "mul" else x + y, FALSE]
            return [st]
        if fn.startswith("llvm.fmuladd") or fn.startswith("llvm.fma."):
            x, y, z = [self.val(st, q) for q in a]
            if isinstance(x, list):
                st.env[I["id"]] = [p * q + r for p, q, r in zip(x, y, z)]
            else:
                st.env[I["id"]] = x * y + z
            return [st]
        if fn.startswith("llvm.fabs"):
            st.env[I["id"]] = P(term("call:fabs", st.norm(self.val(st, a[0]))))
            return [st]
        if fn == "llvm.trap" or fn == "llvm.debugtrap":
            st.event("trap", I)
            return [st]
        if fn.startswith("llvm.sqrt"):
            st.env[I["id"]] = P(term("call:sqrt", st.norm(self.val(st, a[0]))))
            return [st]
        if fn.startswith(("llvm.ctlz", "llvm.cttz", "llvm.ctpop")):
            st.env[I["id"]] = P(term(fn.split(".")[1], st.norm(self.val(st, a[0])), nn=True, ub=64))
            return [st]
        return None

    # ---- control flow -------------------------------------------------------------------------
    def run(self, fn, st):
        """st.env must hold the arguments.  Returns outcomes: ('ret', state, val) / ('die', state)"""
        self.fn = fn
        if not hasattr(self, "pending_die") or getattr(self, "_depth", 0) == 0:
            self.pending_die = []
        outs = self.walk(fn, 0, None, st, None)
        if getattr(self, "_depth", 0) == 0:
            outs = outs + self.pending_die
        self.stats["paths"] += len(outs)
        return outs

    def enter_block(self, fn, b, prev, st):
        """evaluate phis"""
        blk = fn.blocks[b]
        vals = []
        n = 0
        for I in blk:
            if I["op"] != "phi":
                break
            n += 1
            for pb, o in I["in"]:
                if pb == prev:
                    v = self.val(st, o)
                    vals.append((I["id"], v, I["ty"]))
                    break
            else:
                raise AnalysisError("phi without edge")
        for i, v, ty in vals:
            if ty == "i1":
                v = self.tocond(v)
            st.env[i] = v
        return n

    def exec_block(self, fn, b, st, start):
        """returns list of ('br', state, succ) / ('ret', state, val) / ('die', state)"""
        blk = fn.blocks[b]
        work = [(st, start)]
        outs = []
        guard = 0
        while work:
            s, j = work.pop()
            dead = False
            while j < len(blk) - 1:
                I = blk[j]
                self.cur = I
                self.stats["insts"] += 1
                bak = s.copy() if I["op"] == "call" else None
                try:
                    nxt = self.step(s, I)
                except NeedSplit as e:
                    if bak is not None:
                        s = bak
                    guard += 1
                    if guard > 400:
                        raise AnalysisError("too many case splits at %s" % ir.where(I))
                    for c in (e.cond, c_not(e.cond)):
                        for s2 in s.assume(c):
                            work.append((s2.copy(), j))
                    dead = True
                    break
                if nxt is DIE:
                    outs.append(("die", s))
                    dead = True
                    break
                if len(nxt) == 1:
                    s = nxt[0]
                    if I["op"] == "call" and I.get("noret"):
                        outs.append(("die", s))
                        dead = True
                        break
                    j += 1
                    continue
                for s2 in nxt:
                    work.append((s2.copy(), j + 1))
                dead = True
                break
            if dead:
                continue
            I = blk[-1]
            self.cur = I
            op = I["op"]
            if op == "ret":
                v = self.val(s, I["a"][0]) if I["a"] else None
                outs.append(("ret", s, v))
            elif op == "unreachable":
                outs.append(("die", s))
            elif op == "br":
                if "cond" not in I:
                    outs.append(("br", s, I["succ"][0]))
                else:
                    c = self.tocond(self.val(s, I["cond"]))
                    try:
                        for cc, t in ((c, I["succ"][0]), (c_not(c), I["succ"][1])):
                            for s2 in s.assume(cc):
                                s2 = s2.copy()
                                self.model.on_branch(self, s2, I, cc)
                                outs.append(("br", s2, t))
                    except RecursionError:
                        raise AnalysisError("condition too deep")
            elif op == "switch":
                v = self.val(s, I["cond"])
                rest = [s]
                for cv, t in I["cases"]:
                    cval_ = self.val(s, cv)
                    nrest = []
                    for r in rest:
                        if is_cond(v):
                            cc = v if self.tocond(cval_) == TRUE else c_not(v)
                        else:
                            cc = c_eq(r.norm(v) - cval_)
                        for s2 in r.assume(cc):
                            outs.append(("br", s2.copy(), t))
                        nrest += r.assume(c_not(cc))
                    rest = nrest
                for r in rest:
                    outs.append(("br", r.copy(), I["default"]))
            else:
                raise AnalysisError("terminator " + op)
        return outs

    def walk(self, fn, b, prev, st, loop, skip_phi=False):
        """explore from block b.  Outcomes: ret/die, ('latch', state, from), ('exit', state, from, to)"""
        work = [(b, prev, st, skip_phi)]
        outs = []
        n = 0
        while work:
            b, prev, s, sp = work.pop()
            n += 1
            self.stats["states"] += 1
            if n > self.max_states:
                raise AnalysisError("state budget exceeded in %s" % fn.dem)
            if b in fn.loops and not (loop is not None and loop.header == b and sp) and not (sp and loop is not None and b == loop.header):
                if loop is None or loop.header != b:
                    for o in self.exec_loop(fn, fn.loops[b], prev, s):
                        if o[0] == "exit":
                            self.route(fn, loop, o[2], o[3], o[1], work, outs)
                        else:
                            outs.append(o)
                    continue
            if sp:
                start = 0
                while fn.blocks[b][start]["op"] == "phi":
                    start += 1
            else:
                start = self.enter_block(fn, b, prev, s)
            for o in self.exec_block(fn, b, s, start):
                if o[0] == "br":
                    self.route(fn, loop, b, o[2], o[1], work, outs)
                else:
                    outs.append(o)
        return outs

    def route(self, fn, loop, frm, to, st, work, outs):
        if loop is not None:
            if to == loop.header:
                outs.append(("latch", st, frm))
                return
            if to not in loop.blocks:
                outs.append(("exit", st, frm, to))
                return
        work.append((to, frm, st, False))

    # ---- loops --------------------------------------------------------------------------------
    def header_phis(self, fn, L):
        out = []
        for I in fn.blocks[L.header]:
            if I["op"] != "phi":
                break
            out.append(I)
        return out

    def exec_loop(self, fn, L, prev, st0):
        self.stats["loops"] += 1
        # 1. decided loops (constant trip count under the current facts): follow them
        r = self.try_unroll(fn, L, prev, st0)
        if r is not None:
            return r
        try:
            return self.summarise(fn, L, prev, st0, 0)
        except AnalysisError:
            # the first iteration may differ from the others (a hole opening, a lagging variable): peel it
            if getattr(self, "_peel2", 0) >= 1:
                raise
            self._peel2 = getattr(self, "_peel2", 0) + 1
            try:
                res = []
                for o in self.walk_iter(fn, L, prev, st0.copy()):
                    res += [o] if o[0] != "latch" else self.exec_loop(fn, L, o[2], o[1].copy())
                return res
            finally:
                self._peel2 -= 1

    def try_unroll(self, fn, L, prev, st0):
        cur, p = st0.copy(), prev
        log = []
        for it in range(self.unroll + 1):
            try:
                outs = self.walk_iter(fn, L, p, cur.copy())
            except NeedSplit:
                return None
            lat = [o for o in outs if o[0] == "latch"]
            oth = [o for o in outs if o[0] != "latch"]
            fin = [o for o in oth if o[0] != "die"]
            if not lat:
                return log + oth
            if len(lat) != 1 or fin:
                if self.model.unroll_all and it < self.model.unroll_all:
                    return None
                return None
            log += oth
            cur, p = lat[0][1], lat[0][2]
            if it > 2 and not self._progress_const(fn, L, cur, lat[0][2]):
                return None
        return None

    def _progress_const(self, fn, L, st, latch):
        """keep unrolling only if some loop-carried integer phi is a known constant (bounded loop)"""
        for I in self.header_phis(fn, L):
            for pb, o in I["in"]:
                if pb == latch:
                    v = self.val(st, o)
                    if isinstance(v, Poly) and v.is_const():
                        return True
                    if isinstance(v, Poly):
                        b, off = split_addr(v)
                        if b is not None and off.is_const():
                            return True
        return not self.header_phis(fn, L)

    def walk_iter(self, fn, L, prev, st):
        """one iteration starting at the header, phis evaluated from prev"""
        self.enter_block(fn, L.header, prev, st)
        return self.walk(fn, L.header, prev, st, L, skip_phi=True)

    def walk_iter_env(self, fn, L, st):
        return self.walk(fn, L.header, None, st, L, skip_phi=True)

    def is_invariant(self, x, mk, k, phis, marr):
        """poly/term x does not depend on the iteration"""
        for t in deep_terms(x):
            if t is k or t in phis:
                return False
            if t.id >= mk and not t.args:
                return False  # a fresh symbol born inside the loop
            if t.op in ("unk", "fill"):
                if t.id >= mk:
                    return False
            if t.op == "ld" and t.id >= mk and (t.args[0] in marr or t.args[0].op.startswith("alloca")):
                return False
        return True

    def summarise(self, fn, L, prev, st0, depth):
        if depth > 24:
            raise AnalysisError("loop case splitting too deep at %s" % self.loopname(fn, L))
        mk = mark()
        phis = self.header_phis(fn, L)
        st0 = st0.copy()
        init = {}
        for I in phis:
            for pb, o in I["in"]:
                if pb == prev:
                    v = self.val(st0, o)
                    init[("phi", I["id"])] = (st0.norm(v) if isinstance(v, Poly) else v, I["ty"])
        names = {}
        lid = (fn.name, L.header)

        def sym(m, ty):
            if m not in names:
                names[m] = fresh("phi", ptr=(ty == "ptr"), nn=(ty in INTW and ty != "i1") or ty == "ptr")
            return names[m]

        # 2. the set of loop-carried cells
        cells = {}   # (base, off) -> (size, ty)
        marr = set()  # objects written at iteration-dependent offsets
        k = fresh("k", nn=True)
        for rnd in range(12):
            H = st0.copy()
            for I in phis:
                m = ("phi", I["id"])
                if I["ty"] == "i1":
                    H.env[I["id"]] = c_ne(P(fresh("phib", nn=True, ub=1)))
                else:
                    H.env[I["id"]] = P(sym(m, I["ty"]))
            for (b, o), (sz, ty) in cells.items():
                self.set_cell(H, b, o, sz, P(sym(("cell", b, o), ty)))
            for b in marr:
                self.havoc_arr(H, b, cells)
            outs = self.walk_iter_env(fn, L, H.copy())
            if not any(o[0] == "latch" for o in outs):
                return self.first_only(fn, L, prev, st0)
            changed = False
            for o in outs:
                if o[0] != "latch":
                    continue
                T = o[1]
                for b, ob in T.mem.items():
                    hb = H.mem.get(b)
                    if ob is hb:
                        continue
                    if b.op.startswith("alloca") and b not in st0.mem:
                        continue
                    if b.id >= mk and not b.args:
                        continue
                    hc = hb.cells if hb else {}
                    for off, c in ob.cells.items():
                        if (b, off) in cells:
                            continue
                        if not self.is_invariant(off, mk, k, set(names.values()), marr):
                            if b not in marr:
                                marr.add(b)
                                changed = True
                            continue
                        oldv = hc.get(off)
                        if oldv is not None and oldv[0] == c[0] and self.veq(T, oldv[1], c[1]):
                            continue
                        if oldv is None and self.local_dead(b, hb):
                            # per-iteration temporary (lifetime restarted in the body)
                            continue
                        cells[(b, off)] = (c[0], self.guess_ty(c))
                        changed = True
                    for off, c in hc.items():
                        if off not in ob.cells and (b, off) not in cells:
                            if not self.local_dead(b, ob):
                                cells[(b, off)] = (c[0], self.guess_ty(c))
                                changed = True
                    hbl = len(hb.blits) if hb else 0
                    if len(ob.blits) != hbl and not b.op.startswith("alloca") and b not in marr:
                        marr.add(b)
                        changed = True
            if not changed:
                break
        else:
            raise AnalysisError("loop-carried cells do not stabilise at %s" % self.loopname(fn, L))
        for (b, o), (sz, ty) in cells.items():
            v = self.load_obj(st0, b, st0.mem.get(b), o, sz, ty)
            init[("cell", b, o)] = (v, ty)

        # 3. induction variables
        def latch_val(T, frm, m):
            if m[0] == "phi":
                for I in phis:
                    if I["id"] == m[1]:
                        for pb, o in I["in"]:
                            if pb == frm:
                                v = self.val(T, o)
                                return T.norm(v) if isinstance(v, Poly) else v
            b, off = m[1], m[2]
            return T.norm(self.load_obj(T, b, T.mem.get(b), off, *cells[(b, off)]))

        # mode flags: cells with a constant initial value that most iterations keep; an iteration changing
        # one of them is a phase transition (the loop is re-entered with the new constants)
        closed = {}
        flags = {}
        cyc = {}
        for m, (v0, ty) in init.items():
            if (ty == "i1" and v0 in (TRUE, FALSE)) or (ty == "i8" and isinstance(v0, Poly) and v0.is_const()):
                flags[m] = v0
        while flags:
            closed = dict(flags)
            H = self.make_header(st0, phis, cells, marr, names, closed, k, sym)
            outs = [o for o in self.walk_iter_env(fn, L, H.copy()) if o[0] == "latch"]
            bad = [m for m in flags if not any(self.veq(o[1], latch_val(o[1], o[2], m), flags[m]) for o in outs)]
            if not bad:
                if not any(all(self.veq(o[1], latch_val(o[1], o[2], m), flags[m]) for m in flags) for o in outs):
                    bad = list(flags)
                else:
                    break
            for m in bad:
                del flags[m]
        closed = dict(flags)

        def split_lats(outs, kval):
            """(regular iterations, phase transitions)"""
            reg, tr = [], []
            for o in outs:
                if o[0] != "latch":
                    continue
                T = o[1]
                ok = all(self.veq(T, latch_val(T, o[2], m), flags[m]) for m in flags)
                if ok:
                    for m, d in cyc.items():
                        x = latch_val(T, o[2], m) - subst(closed[m], {k: kval}) - d
                        if not T.eq0(x):
                            ok = False
                            break
                (reg if ok else tr).append(o)
            return reg, tr

        def follow(tr):
            """continue after phase transitions"""
            if not tr:
                return []
            self._phase = getattr(self, "_phase", 0) + 1
            try:
                if self._phase > 8:
                    raise AnalysisError("too many phases at %s" % self.loopname(fn, L))
                res = []
                for o in tr:
                    res += self.exec_loop(fn, L, o[2], o[1].copy())
                return res
            finally:
                self._phase -= 1

        for rnd in range(6):
            H = self.make_header(st0, phis, cells, marr, names, closed, k, sym)
            outs = self.walk_iter_env(fn, L, H.copy())
            lats = split_lats(outs, P(k))[0]
            new = False
            for m, (v0, ty) in init.items():
                if m in closed or ty == "i1" or not isinstance(v0, Poly) or isinstance(v0, list):
                    continue
                ds = set()
                for o in lats:
                    v = latch_val(o[1], o[2], m)
                    if not isinstance(v, Poly):
                        ds.add(None)
                        continue
                    d = v - P(names.get(m) or sym(m, ty))
                    ds.add(o[1].norm(d))
                if len(ds) > 1:
                    # a wrap-around: paths on which the variable is pinned to a fixed value are transitions
                    ds = set()
                    for o in lats:
                        x = o[1].norm(P(names[m]))
                        if names[m] in deep_terms(x):
                            v = latch_val(o[1], o[2], m)
                            ds.add(o[1].norm(v - P(names[m])) if isinstance(v, Poly) else None)
                    if len(ds) != 1 or None in ds:
                        continue
                    d = ds.pop()
                    if self.is_invariant(d, mk, k, set(names.values()), marr):
                        cyc[m] = d
                        closed[m] = v0 + d * P(k)
                        new = True
                        break
                    continue
                if len(ds) == 1:
                    d = ds.pop()
                    if d is not None and self.is_invariant(d, mk, k, set(names.values()), marr):
                        closed[m] = v0 + d * P(k)
                        new = True
            for m, (v0, ty) in init.items():
                # a variable that lags one iteration behind a closed form
                if new or m in closed or ty == "i1" or not isinstance(v0, Poly) or isinstance(v0, list) or m not in names:
                    continue
                vs = set()
                for o in lats:
                    v = latch_val(o[1], o[2], m)
                    vs.add(v if isinstance(v, Poly) else None)
                if len(vs) != 1 or None in vs:
                    continue
                v = vs.pop()
                lc = v.linear_coeff(k)
                if lc is None or not (lc.is_const() if isinstance(lc, Poly) else True) or k in deep_terms(v - lc * P(k)) or k not in v.terms():
                    continue
                if set(names.values()) & set(deep_terms(v)) or not self.is_invariant(subst(v, {k: ZERO}), mk, k, set(names.values()), marr):
                    continue
                v1 = subst(v, {k: P(k) - 1})
                if st0.eq0(subst(v1, {k: ZERO}) - v0):
                    closed[m] = v1
                    new = True
                elif getattr(self, "_peel", 0) < 2:
                    self._peel = getattr(self, "_peel", 0) + 1
                    try:
                        res = []
                        for o in self.walk_iter(fn, L, prev, st0.copy()):
                            res += [o] if o[0] != "latch" else self.exec_loop(fn, L, o[2], o[1].copy())
                        return res
                    finally:
                        self._peel -= 1
            if not new:
                break
        # loop-invariant unswitching
        lats = split_lats(outs, P(k))[0]
        base_facts = set(H.facts)
        for o in outs:
            for f in o[1].facts:
                if f in base_facts:
                    continue
                if self.is_invariant(f, mk, k, set(names.values()), marr) and not st0.ent(f) and k not in deep_terms(f):
                    if st0.ent(-f - 1):
                        continue
                    if not all(t.id < mk or t.op == "ld" for t in f.terms()):
                        continue
                    res = []
                    for c in (c_ge(f), c_ge(-f - 1)):
                        for s in st0.assume(c):
                            res += self.redo(fn, L, prev, s, depth + 1)
                    return res
            for q in o[1].neqs:
                if q in H.neqs:
                    continue
                if self.is_invariant(q, mk, k, set(names.values()), marr) and k not in deep_terms(q) and st0.decide(c_eq(q)) is None:
                    if not all(t.id < mk or t.op == "ld" for t in q.terms()):
                        continue
                    res = []
                    for c in (c_eq(q), c_ne(q)):
                        for s in st0.assume(c):
                            res += self.redo(fn, L, prev, s, depth + 1)
                    return res

        # 4. template invariants for the remaining integer cells (Houdini)
        opaque = [(m, v0, ty) for m, (v0, ty) in init.items() if m not in closed and ty != "i1" and isinstance(v0, Poly)]
        cands = []
        for m, v0, ty in opaque:
            x = P(names[m])
            if ty == "ptr":
                continue
            cands.append(("lo", m, x - v0))
            cands.append(("hi", m, v0 - x))
            seen = set()
            for f in st0.facts + tuple(self.model.inv_hints(self, st0)):
                for t in f.terms():
                    if t.ptr or t in seen:
                        continue
                    seen.add(t)
                    cands.append(("b", m, P(t) - x))
                    cands.append(("b", m, P(t) - x - 1))
            for m2, w0, ty2 in opaque:
                if m2 != m and ty2 != "ptr":
                    cands.append(("r", m, P(names[m2]) - x))
            for m2, cv in closed.items():
                if isinstance(cv, Poly) and not self._isptr(cv):
                    cands.append(("r", m, cv - x))
                    cands.append(("r", m, x - cv))
        for o in lats:
            for q in o[1].neqs:
                if q not in H.neqs and k in q.terms() and self.lin_inv(q, k, mk, names, marr):
                    cands.append(("n", None, q))
                    cands.append(("n", None, -q))
            for f in o[1].facts:
                if f not in base_facts and k in f.terms() and self.lin_inv(f, k, mk, names, marr):
                    cands.append(("n", None, f))

        def with_opaque(p, f):
            sm = {names[m]: f(m) for m, _, _ in opaque}
            return subst(p, sm)
        good = []
        for c in cands:
            p0 = with_opaque(subst(c[2], {k: ZERO}), lambda m: init[m][0])
            if st0.ent(p0):
                good.append(c)
        for rnd in range(10):
            if not good:
                break
            H = self.make_header(st0, phis, cells, marr, names, closed, k, sym)
            H.facts = H.facts + tuple(c[2] for c in good)
            outs = self.walk_iter_env(fn, L, H.copy())
            keep = []
            for c in good:
                ok = True
                for o in split_lats(outs, P(k))[0]:
                    T = o[1]
                    pv = with_opaque(subst(c[2], {k: P(k) + 1}), lambda m: self._pv(latch_val(T, o[2], m)))
                    if not T.ent(pv):
                        ok = False
                        break
                if ok:
                    keep.append(c)
            if len(keep) == len(good):
                break
            good = keep
        H = self.make_header(st0, phis, cells, marr, names, closed, k, sym)
        inv = tuple(c[2] for c in good)
        H.facts = H.facts + inv
        outs = self.walk_iter_env(fn, L, H.copy())
        lats = split_lats(outs, P(k))[0]
        if not lats:
            return self.first_only(fn, L, prev, st0, split_lats, follow)
        # resources as the earlier iterations left them (fixpoint on the per-iteration change)
        last = None
        for rnd in range(4):
            try:
                pre = self.prefix_measure(fn, L, st0, H, lats, k, mk, names, marr)
            except AnalysisError:
                if last is not None:
                    raise
                # every iteration disturbs what the previous one left: start from the first one's change
                pre = self.seed_measure(fn, L, prev, st0, H, lats, k, mk, names, marr)
                if pre is None:
                    raise
            if pre is None or pre == last:
                break
            last = pre
            H.meas = dict(st0.meas)
            for key, d in pre:
                dd = dict(H.meas.get(key, {}))
                for p, c in d:
                    dd[p] = dd.get(p, 0) + c
                H.meas[key] = {p: c for p, c in dd.items() if c}
            outs = self.walk_iter_env(fn, L, H.copy())
            lats = split_lats(outs, P(k))[0]
        else:
            raise AnalysisError("per-iteration resource change does not stabilise at %s" % self.loopname(fn, L))

        # 5. K == 0: the first iteration already leaves (or dies / returns)
        result = self.first_only(fn, L, prev, st0, split_lats, follow)

        # 6. K >= 1: sum the generic iteration over [0, K) then take an exiting iteration at k = K
        K = fresh("K", nn=True)
        S = st0.copy()
        S.facts = S.facts + (P(K) - 1,)
        # facts common to every continuing path
        common = None
        for o in lats:
            fs = [f for f in o[1].facts if f not in H.facts]
            fs = [f for f in fs]
            if common is None:
                common = fs
            else:
                common = [f for f in common if o[1].ent(f)]
        commonf = []
        for f in common or []:
            if not deep_terms(f).isdisjoint(set(names.values())):
                continue
            if k in f.terms() and all(len(mm) <= 1 or k not in mm for mm in f.t) and self.lin_inv(f, k, mk, names, marr):
                commonf.append(f)
        sts = [S]
        for f in commonf:
            nxt = []
            for s in sts:
                for at in (ZERO, P(K) - 1):
                    r = s.assume(c_ge(subst(f, {k: at})))
                    if not r:
                        s = None
                        break
                    s = r[0]
                if s is not None:
                    nxt.append(s)
            sts = nxt
        # continuing disequalities common to all (e.g. k != n)
        cneq = None
        for o in lats:
            qs = [q for q in o[1].neqs if q not in H.neqs]
            cneq = qs if cneq is None else [q for q in cneq if q in qs or -q in qs]
        for S in sts:
            # 6a. where does the loop stop?  Run one exiting iteration without effects and solve for K.
            pins = []
            unsolved = False
            anydie = False
            light = self.summary_state(fn, L, S, H, lats, k, K, mk, names, closed, cells, marr, init, latch_val, commonf, phis, inv, True)
            lo_ = self.walk_iter_env(fn, L, light)
            tr_ = split_lats(lo_, P(K))[1]
            for o in lo_:
                if o[0] == "die" or (o[0] == "latch" and not any(o is x for x in tr_)):
                    if o[0] == "die":
                        anydie = True
                    continue
                for s3 in self.solve_for(o[1], K):
                    v = s3.norm(P(K))
                    if K in v.terms() or not self.is_invariant(v, mk, k, set(names.values()), marr) or any(
                            t.id >= mk and t.op.startswith(("exitphi", "phib")) for t in deep_terms(v)):
                        unsolved = True
                    elif v not in pins:
                        pins.append(v)
            if anydie:
                # paths that terminate the program in some iteration
                try:
                    s = self.summary_state(fn, L, S, H, lats, k, K, mk, names, closed, cells, marr, init, latch_val, commonf, phis, inv, False)
                    for o in self.walk_iter_env(fn, L, s):
                        if o[0] == "die":
                            result.append(o)
                except NeedSplit as e:
                    self._lmark = mk
                    return self.split_redo(fn, L, prev, st0, e.cond, depth)
            runs = []
            for v in pins:
                runs += [(s, v) for s in S.assume(c_eq(P(K) - v))]
            if unsolved:
                s = S
                for v in pins:
                    s = s.assume(c_ne(P(K) - v))
                    s = s[0] if s else None
                    if s is None:
                        break
                if s is not None:
                    runs.append((s, None))
            for S1, v in runs:
                try:
                    s = self.summary_state(fn, L, S1, H, lats, k, K, mk, names, closed, cells, marr, init, latch_val, commonf, phis, inv, False)
                except NeedSplit as e:
                    self._lmark = mk
                    return self.split_redo(fn, L, prev, st0, e.cond, depth)
                fo_ = self.walk_iter_env(fn, L, s)
                result += follow(split_lats(fo_, s.norm(P(K)))[1])
                for o in fo_:
                    if o[0] == "latch" or (o[0] == "die" and anydie):
                        continue
                    if o[0] == "die":
                        result.append(o)
                    elif o[0] == "exit":
                        result.append(("exit", o[1], o[2], o[3]))
                    else:
                        result.append(("ret", o[1], o[2]))
        return result

    def split_redo(self, fn, L, prev, st0, c, depth):
        if not all(t.id < self._lmark or t.op == "ld" for t in deep_terms(c)):
            raise AnalysisError("undecidable case split inside the loop at %s: %r" % (self.loopname(fn, L), c))
        res = []
        for cc in (c, c_not(c)):
            for s in st0.assume(cc):
                res += self.redo(fn, L, prev, s.copy(), depth + 1)
        return res

    def redo(self, fn, L, prev, s, depth):
        r = self.try_unroll(fn, L, prev, s)
        if r is not None:
            return r
        return self.summarise(fn, L, prev, s, depth)

    def _pv(self, v):
        return v if isinstance(v, Poly) else P(fresh("nv"))

    def lin_inv(self, f, k, mk, names, marr):
        rest = Poly({m: c for m, c in f.t.items() if k not in m})
        if not self.is_invariant(rest, mk, k, set(names.values()), marr):
            return False
        for m, c in f.t.items():
            if k in m and len(m) != 1:
                return False
        return True

    def solve_for(self, st, K):
        """turn facts that pin K into a substitution"""
        for f in st.facts:
            c = f.linear_coeff(K)
            if c and st.ent(-f):
                return st.copy()._seteq(f) if c in (1, -1) else [st]
        for f in st.facts:
            c = f.linear_coeff(K)
            if not c or abs(c) == 1:
                continue
            g = f.div_exact(abs(c))
            if g is not None and st.ent(-g):
                return st.copy()._seteq(g)
        # try to pin through integer bounds:  K >= a and K <= a
        cand = set()
        for f in st.facts:
            c = f.linear_coeff(K)
            if c in (1, -1):
                cand.add(P(K) - f if c == 1 else P(K) + f)
        for a in cand:
            for d in (0, 1, -1):
                e = P(K) - a - d
                if K in e.terms() and st.ent(e) and st.ent(-e):
                    return st.copy()._seteq(e)
        return [st]

    def first_only(self, fn, L, prev, st0, split_lats=None, follow=None):
        outs = []
        its = self.walk_iter(fn, L, prev, st0.copy())
        for o in its:
            if o[0] != "latch":
                outs.append(o)
        if split_lats is not None:
            outs += follow(split_lats(its, ZERO)[1])
        return outs

    def set_cell(self, st, b, o, sz, v):
        ob = self.wobj(st, b)
        ob.cells[o] = (sz, v)

    def havoc_arr(self, st, b, cells):
        """an object written at iteration-dependent offsets: the generic iteration still sees the
        pre-loop contents at its own offsets (checked by stride reasoning), so nothing is havocked before;
        cells at invariant offsets that are not loop carried are dropped by the summary."""
        return

    def make_header(self, st0, phis, cells, marr, names, closed, k, sym):
        H = st0.copy()
        for I in phis:
            m = ("phi", I["id"])
            if m in closed:
                H.env[I["id"]] = closed[m]
            elif I["ty"] == "i1":
                H.env[I["id"]] = c_ne(P(fresh("phib", nn=True, ub=1)))
            else:
                H.env[I["id"]] = P(sym(m, I["ty"]))
        for (b, o), (sz, ty) in cells.items():
            m = ("cell", b, o)
            self.set_cell(H, b, o, sz, closed[m] if m in closed else P(sym(m, ty)))
        return H

    def veq(self, st, a, b):
        if isinstance(a, Poly) and isinstance(b, Poly):
            return st.norm(a) == st.norm(b)
        return a == b

    def local_dead(self, b, ob):
        return b.op.startswith("alloca") and (ob is None or not ob.cells)

    def guess_ty(self, c):
        sz, v = c
        if isinstance(v, Poly) and self._isptr(v):
            return "ptr"
        if isinstance(v, Poly) and v.is_const() and v.cval() == 0 and sz == 8 and False:
            return "ptr"
        return {1: "i8", 2: "i16", 4: "i32", 8: "i64"}.get(sz, "i64")

    def loopname(self, fn, L):
        for b in sorted(L.blocks):
            for I in fn.blocks[b]:
                if I.get("loc"):
                    return ir.where(I)
        return fn.dem

    def guard_interval(self, st, T, H, k, K, mk, names, marr, commonf):
        """the iterations on which path T is taken: (lo, hi, data-guard tuple)"""
        lo, hi = ZERO, st.norm(P(K))
        data = []
        for f in T.facts:
            if f in H.facts or f in commonf:
                continue
            f = st.norm(f)
            if k in f.terms() and self.lin_inv(f, k, mk, names, marr):
                c = f.linear_coeff(k)
                rest = f - P(k) * c
                if c == 1:
                    nl = -rest
                    x = st.norm(nl - lo)
                    d = st.decide(c_ge(x))
                    if d is None:
                        if K in deep_terms(x) or not self.is_invariant(x, mk, k, set(names.values()), marr):
                            data.append(("ge", f))
                            continue
                        raise NeedSplit(c_ge(x))
                    if d:
                        lo = nl
                elif c == -1:
                    nh = rest + 1
                    x = st.norm(hi - nh)
                    d = st.decide(c_ge(x))
                    if d is None:
                        if K in deep_terms(x) or not self.is_invariant(x, mk, k, set(names.values()), marr):
                            data.append(("ge", f))
                            continue
                        raise NeedSplit(c_ge(x))
                    if d:
                        hi = nh
                else:
                    g = None
                    data.append(("ge", f))
            elif k in deep_terms(f) or not self.is_invariant(f, mk, k, set(names.values()), marr):
                data.append(("ge", f))
        for q in T.neqs:
            if q in H.neqs:
                continue
            q = st.norm(q)
            if k in deep_terms(q) or not self.is_invariant(q, mk, k, set(names.values()), marr):
                data.append(("ne", q))
        for t, v in T.sm.items():
            if t in H.sm:
                continue
            e = st.norm(P(t) - v)
            if k in deep_terms(e) or not self.is_invariant(e, mk, k, set(names.values()), marr):
                data.append(("eq", P(t) - v))
        if data:
            q = st.copy()
            for f in (P(k) - lo, hi - 1 - P(k)):
                f = q.norm(f)
                if not f.is_const():
                    q.facts = q.facts + (f,)
            data = [(c, p) for c, p in data if q.decide((c, q.norm(p))) is not True]
        return lo, hi, tuple(data)

    def summary_state(self, fn, L, S, H, lats, k, K, mk, names, closed, cells, marr, init, latch_val, commonf, phis, inv, light):
        """state at the header of iteration K, after iterations [0, K)"""
        S = S.copy()
        # pin K early when the continue/exit facts determine it later is impossible; keep symbolic
        kK = {k: S.norm(P(K))}
        intervals = []
        for o in lats:
            T = o[1]
            if light:
                intervals.append(None)
                continue
            intervals.append(self.guard_interval(S, T, H, k, K, mk, names, marr, commonf))
        opaque_names = {}
        envs = {}
        for m, (v0, ty) in init.items():
            if m in closed:
                v = subst(closed[m], kK) if isinstance(closed[m], Poly) else closed[m]
            elif ty == "i1":
                v = c_ne(P(fresh("phib", nn=True, ub=1)))
            else:
                v = None
                # conditional accumulator?
                if isinstance(v0, Poly) and not light:
                    acc = []
                    for o, (lo, hi, data) in zip(lats, intervals):
                        x = latch_val(o[1], o[2], m)
                        d = x - P(names[m]) if isinstance(x, Poly) else None
                        if d is None or not deep_terms(d).isdisjoint(set(names.values())) or data:
                            acc = None
                            break
                        acc.append((d, lo, hi))
                    if acc is not None:
                        v = v0
                        for d, lo, hi in acc:
                            v = v + self.sum_over(d, k, lo, hi, mk, names, marr)
                if v is None:
                    t = fresh("exitphi", ptr=(ty == "ptr"), nn=(ty in INTW) or ty == "ptr")
                    v = P(t)
                    opaque_names[names[m]] = v
            if m[0] == "phi":
                S.env[m[1]] = v
            else:
                envs[m] = v
        accs = {}
        for m, (v0, ty) in init.items():
            if m in closed or ty == "i1":
                continue
            if m[0] == "phi":
                accs[names[m]] = S.env[m[1]]
            else:
                accs[names[m]] = envs[m]
        sm = dict(kK)
        sm.update({n: v for n, v in accs.items() if isinstance(v, Poly)})
        for f in inv:
            S.facts = S.facts + (subst(f, sm),)
        if light:
            for m, v in envs.items():
                self.set_cell(S, m[1], m[2], cells[(m[1], m[2])][0], v)
            return S
        # array effects: drop what the loop may have overwritten
        for b in marr:
            ob = S.mem.get(b)
            self.model.on_array_loop(self, S, b, lats, H, k, K, intervals)
            if b.op.startswith("alloca") and ob is None:
                continue
            S.mem[b] = Obj({off: c for off, c in (ob.cells.items() if ob else ()) if False}, (), (), (ob.ver if ob else 0) + 1)
        for m, v in envs.items():
            self.set_cell(S, m[1], m[2], cells[(m[1], m[2])][0], v)
        # measures
        for o, (lo, hi, data) in zip(lats, intervals):
            T = o[1]
            for key, d in self.diff_measure(T, H):
                self.sum_measure(S, key, d, k, lo, hi, data, mk, names, marr, fn, L)
            self.model.loop_ts(self, S, H, T, fn, L, (lo, hi, data))
        evs = []
        for o, iv in zip(lats, intervals):
            e = o[1].events(H.log)
            if e:
                evs.append((iv, e))
        if evs:
            S.event("loop", k, K, evs, self.loopname(fn, L))
        # what every earlier iteration established before it continued
        alts = []
        bad = set(names.values())
        for o in lats:
            T = o[1]
            fs = [f for f in T.facts if f not in H.facts and k in deep_terms(f) and deep_terms(f).isdisjoint(bad)]
            ns = [q for q in T.neqs if q not in H.neqs and k in deep_terms(q) and deep_terms(q).isdisjoint(bad)]
            for t, v in T.sm.items():
                if t not in H.sm and isinstance(v, Poly):
                    e = P(t) - v
                    if k in deep_terms(e) and deep_terms(e).isdisjoint(bad):
                        fs += [e, -e]
            alts.append((fs, ns))
        if alts and all(a[0] or a[1] for a in alts):
            S.ts[("all", k)] = (P(K), alts)
        return S

    def diff_measure(self, T, H):
        Tn, Hn = T.copy(), H.copy()
        Hn.sm = T.sm
        Tn.normmeas()
        Hn.normmeas()
        res = []
        for key in set(Tn.meas) | set(Hn.meas):
            a, b = Tn.meas.get(key, {}), Hn.meas.get(key, {})
            d = {}
            for p in set(a) | set(b):
                c = a.get(p, 0) - b.get(p, 0)
                if c:
                    d[p] = c
            if d:
                res.append((key, d))
        return res

    def prefix_measure(self, fn, L, st0, H, lats, k, mk, names, marr):
        """measure change of iterations [0, k) relative to st0, as a comparable value; None: no change"""
        kk = fresh("j", nn=True)
        S = st0.copy()
        S.meas = {}
        S.facts = S.facts + (P(kk) - 1,)
        hit = False
        for o in lats:
            T = o[1]
            df = self.diff_measure(T, H)
            if not df:
                continue
            hit = True
            try:
                lo, hi, data = self.guard_interval(S, T, H, k, kk, mk, names, marr, ())
            except NeedSplit:
                return None
            S2 = S.copy()
            for f in (P(k) - lo, hi - 1 - P(k)):
                S2.facts = S2.facts + (S2.norm(f),)
            if data and not self.model.guarded_prefix:
                return None
            for key, d in df:
                self.sum_measure(S, key, d, k, lo, hi, data, mk, names, marr, fn, L)
        if not hit:
            return None
        S.normmeas()
        return frozenset((subst(key, {kk: P(k)}), frozenset((subst(p, {kk: P(k)}), c) for p, c in d.items()))
                         for key, d in S.meas.items())

    def seed_measure(self, fn, L, prev, st0, H, lats, k, mk, names, marr):
        """candidate for the prefix change: the first iteration's change, shifted along by the loop's stride"""
        try:
            first = [o for o in self.walk_iter(fn, L, prev, st0.copy()) if o[0] == "latch"]
        except NeedSplit:
            return None
        if len(first) != 1:
            return None
        strides = set()
        for o in lats:
            for key, d in self.diff_measure(o[1], H):
                for p in d:
                    strides.add(p.linear_coeff(k))
        strides.discard(0)
        if len(strides) != 1:
            return None
        s = strides.pop()
        kk = fresh("j", nn=True)
        S = st0.copy()
        S.meas = {}
        S.facts = S.facts + (P(kk) - 1,)
        for key, d in self.diff_measure(first[0][1], st0):
            self.sum_measure(S, key, {p + s * P(k): c for p, c in d.items()}, k, ZERO, P(kk), None, mk, names, marr, fn, L)
        S.normmeas()
        return frozenset((subst(key, {kk: P(k)}), frozenset((subst(p, {kk: P(k)}), c) for p, c in d.items()))
                         for key, d in S.meas.items())

    def sum_over(self, d, k, lo, hi, mk, names, marr):
        out = ZERO
        for m, c in d.t.items():
            if all(k not in deep_terms(t) for t in m):
                out = out + Poly({m: c}) * (hi - lo)
            else:
                inv_ = tuple(t for t in m if k not in deep_terms(t))
                var = tuple(t for t in m if k in deep_terms(t))
                tm = Poly({var: 1})
                idx = term("$i")
                tm = subst(tm, {k: P(idx)})
                f = P(term("F", tm, hi)) - P(term("F", tm, lo))
                out = out + (Poly({inv_: c}) if inv_ else P(c)) * f
        return out

    def sum_measure(self, S, key, d, k, lo, hi, data, mk, names, marr, fn, L):
        dt = deep_terms(key)
        bad = set(names.values())
        if k in dt:
            raise AnalysisError("measure key depends on the iteration at %s: %r" % (self.loopname(fn, L), key))
        d = dict(d)
        if data:
            if not all(S.norm(p) == p for p in d):
                pass
        pending = dict(d)
        while pending:
            p = next(iter(pending))
            c = pending[p]
            if k not in p.terms():
                # pair of k-independent breakpoints: constant contribution per iteration
                raise AnalysisError("iteration-independent resource change in a loop at %s: %r %r" % (self.loopname(fn, L), key, d))
            s = p.linear_coeff(k)
            if not s or any(k in deep_terms(t) and t is not k for t in p.terms()):
                raise AnalysisError("non-affine resource position in a loop at %s" % self.loopname(fn, L))
            # find partner at distance |s|
            part = None
            for q, cq in pending.items():
                if cq * c < 0 and (q - p).is_const() and abs((q - p).cval()) == abs(s):
                    part = q
                    break
            if part is None:
                raise AnalysisError("resource change does not tile the loop range at %s: %r %r" % (self.loopname(fn, L), key, d))
            a, b = (p, part) if (part - p).cval() > 0 else (part, p)
            u = min(abs(pending[a]), abs(pending[b]))
            ca = u if pending[a] > 0 else -u
            if s > 0:
                x, y = subst(a, {k: lo}), subst(a, {k: hi})
            else:
                x, y = subst(a, {k: hi}) + abs(s), subst(a, {k: lo}) + abs(s)
            kk = key
            if data:
                # the guard as a function of the position
                kk = key + (("guard", self.guard_key(data, k, a, s)),)
            S.madd(kk, x, y, ca)
            for z, cz in ((a, ca), (b, -ca)):
                pending[z] -= cz
                if not pending[z]:
                    del pending[z]

    def guard_key(self, data, k, a, s):
        """express the data guard by the byte offset of the touched element: k = (x - a0)/s"""
        idx = term("$k")
        return tuple((c, subst(p, {k: P(idx)})) for c, p in sorted(data, key=repr))


class _Die:
    pass


DIE = _Die()


def inv(p):
    """1/p as a term; p = c*q with q primitive"""
    # normalise sign/content
    cs = [Fraction(c) for c in p.t.values()]
    g = cs[0]
    lead = sorted(p.t.items(), key=lambda x: tuple(t.id for t in x[0]))[0][1]
    g = Fraction(lead)
    q = Poly({m: (Fraction(c) / g) if (Fraction(c) / g).denominator != 1 else int(Fraction(c) / g) for m, c in p.t.items()})
    x = 1 / g
    if len(q.t) == 1:
        (m, c), = q.t.items()
        r = ONE
        for t in m:
            r = r * P(term("inv", P(t)))
        return r * P(int(x) if x.denominator == 1 else x)
    return P(term("inv", q)) * P(int(x) if x.denominator == 1 else x)


class Model:
    """property-independent defaults; subclasses add handlers"""
    sext_identity = False
    guarded_prefix = False
    unroll_all = 0

    def __init__(self):
        self.handlers = []
        self.h(r"^llvm\.", None)

    def h(self, rx, f):
        self.handlers.append((re.compile(rx), f))

    def find(self, fn, dem):
        for rx, f in reversed(self.handlers):
            if f is not None and (rx.search(dem) or rx.search(fn)):
                return f
        return None

    def enter(self, fn, dem):
        return True

    def on_load(self, eng, st, base, off, size, ty, inst):
        return None

    def on_store(self, eng, st, base, off, size, v, inst):
        return False

    def on_atomic(self, eng, st, kind, I, p, v, cmp_):
        return None

    def on_branch(self, eng, st, I, cond):
        pass

    def on_lifetime(self, eng, st, base, what):
        pass

    def bool_field(self, base, off):
        return False

    def indirect(self, eng, st, I, callee, args):
        return None

    def inv_hints(self, eng, st):
        return ()

    def on_array_loop(self, eng, S, b, lats, H, k, K, intervals):
        pass

    def loop_ts(self, eng, S, H, T, fn, L, iv):
        if T.ts != H.ts:
            ch = [x for x in set(T.ts) | set(H.ts) if T.ts.get(x) != H.ts.get(x)]
            ch = [x for x in ch if not self.ts_ignorable(x, H.ts.get(x), T.ts.get(x))]
            if ch:
                raise AnalysisError("loop changes resource state %r at %s" % (ch, eng.loopname(fn, L)))

    def ts_ignorable(self, key, old, new):
        if isinstance(key, tuple) and key[0] == "all":
            return True
        return False

    def memcpy(self, eng, st, I, d, s, n):
        eng.blit(st, d, s, n, I)
        return [(st, d)]

    def memset(self, eng, st, I, d, v, n):
        eng.fill(st, d, v, n, I)
        return [(st, d)]
