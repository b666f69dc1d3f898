"""Formatting: what is measured and what is written, piece by piece.

A rendering is a sequence of pieces: constant text, the rendering of an element (opaque, of length mlen(address)) and the
rendering of a number by a printf format (opaque, of length sn(format, value)).
"""
from build import *
from trace import *

STR = r"^(unsigned long( long)? )?rpp::String<rpp::Mallocator<rpp::Literal\{char \[32\]\{[^}]*\}\}, (true|false)>>::"
OPQ = ["^rpp::Profile::", "^rpp::Thread::Mutex::", "^tok_", STR + r"write[<(]", r"rpp::Libc::snprintf",
       r"^(unsigned long( long)? )?rpp::Format::snprintf<", r"^rpp::String_View::String_View\(rpp::Literal"]
SRC = os.path.join(VERIF, "harness", "format.cpp")


def flat(i):
    """the bytes of a constant character array, or None"""
    if i[0] == "str":
        return bytes.fromhex(i[1])
    if i[0] == "i" and int(i[2]) == 8:
        return bytes([int(i[1]) & 255])
    if i[0] == "agg":
        ps = [flat(x) for x in i[1]]
        return None if any(x is None for x in ps) else b"".join(ps)
    return b"\0" if i[0] == "zero" else None


def text(eng, st, p, n=None):
    """the constant bytes at p (up to a terminator, or n of them)"""
    b, o = split_addr(st.norm(p))
    if b is None or not o.is_const() or not b.op.startswith(("@", "alloca")):
        return None
    g = eng.mod.globals.get(b.op[1:]) if b.op.startswith("@") else None
    if g and g.get("const") and "init" in g:
        by = flat(g["init"])
        if by is not None:
            by = by[int(o.cval()):]
            if n is None:
                return by[:by.index(0)].decode("latin1") if 0 in by else by.decode("latin1")
            return by[:n].decode("latin1")
    out = bytearray()
    while n is None or len(out) < n:
        v = eng.load_obj(st, b, st.mem.get(b), P(int(o.cval()) + len(out)), 1, "i8")
        if not isinstance(v, Poly) or not v.is_const() or len(out) > 200:
            return None
        c = int(v.cval()) & 255
        if n is None and c == 0:
            break
        out.append(c)
    return out.decode("latin1")


def mlen(a):
    return P(term("mlen", a, nn=True))


def snlen(fmt, v):
    return P(term("sn", fmt, v, nn=True, ub=1 << 30))


def plen(p):
    return P(len(p[1])) if p[0] == "s" else mlen(p[1]) if p[0] == "e" else snlen(p[1], p[2]) if p[0] == "n" else p[2]


class Seq:
    """rendering of a sequence: prefix, items separated by sep, suffix; an item is open e0 mid e1 ... close"""

    def __init__(self, prefix, suffix, n, elem, sep=", ", open="", mids=(), close=""):
        self.prefix, self.suffix, self.n, self.elem = prefix, suffix, n, elem
        self.sep, self.open, self.mids, self.close = sep, open, mids, close


class FmtModel(TraceModel):
    relational = True
    always_ghost = ("K", "G", "pos")
    rel_strides = (1, 24)
    rel_retry = 4

    def __init__(self, seq=None):
        super().__init__()
        self.seq = seq
        self.h(r"^tok_measure", lambda e, st, I, a: self.measured(e, st, I, ("e", st.norm(a[0]))))
        self.h(r"^tok_write", lambda e, st, I, a: self.written(e, st, I, a[0], a[1], ("e", st.norm(a[2]))))
        self.h(r"rpp::Libc::snprintf", self.snprintf)
        self.h(r"rpp::Format::snprintf<", self.fsnprintf)
        self.h(STR + r"write\(unsigned long( long)?, char\)", self.wchar)
        self.h(STR + r"write\(unsigned long( long)?, rpp::String_View\)", self.wview)
        self.h(STR + r"write<.*\(unsigned long( long)?, rpp::String<", self.wstring)
        self.h(r"^rpp::String_View::String_View\(rpp::Literal", self.literal)
        self.h(r"^rpp::Math::Mat4::operator\[\]\(.*const$", self.row)
        self.h(r"^rpp::Thread::Atomic::load", lambda e, st, I, a: [(st, P(term("count", st.norm(a[0]))))])
        self.strs = {}

    def may_unroll(self, eng, fn, L):
        return True

    def bad(self, st, I, key, msg):
        st.event("bad", key, msg, I)

    # events --------------------------------------------------------------------------------
    def measured(self, e, st, I, pc):
        for s in self.piece(e, st.copy(), pc, I):
            s.event("m", pc, I)
            return [(s, plen(pc))]

    def written(self, e, st, I, out, idx, pc):
        st = st.copy()
        if not st.eq0(P(idx) - st.ts["pos"]):
            self.bad(st, I, "place", "writes a part somewhere else than behind the part before it")
        st.ts["pos"] = st.norm(P(idx) + plen(pc))
        for s in self.piece(e, st, pc, I):
            s.event("w", pc, I)
        return [(st, st.norm(P(idx) + plen(pc)))]

    def piece(self, e, st, pc, I):
        q = self.seq
        if q is None:
            return [st]
        if pc[0] == "s":
            st.ts["buf"] += pc[1]
            return [st]
        j = st.ts["ip"]
        buf, K, norm = st.ts["buf"], P(st.ts["K"]), st.ts["norm"]
        if st.ts["write"]:
            if j == 0:
                before = self.sepmode == "before" and self.later(st, K)
                want = (q.sep if before else "") + q.open if norm else (q.prefix if st.eq0(K) else q.close + q.sep) + q.open
            else:
                want = q.mids[j - 1]
            if buf != want:
                self.bad(st, I, "text", "writes %r before an element instead of %r" % (buf, want))
        addr = q.elem(e, st, K, j)
        if addr is None:
            addr = P(st.ts["e0"]) + self.item if j else None
        if addr is not None and not st.eq0(addr - pc[1]):
            self.bad(st, I, "element", "renders something else than the next element")
        st.ts["e0"] = pc[1]
        st.ts["buf"], st.ts["norm"] = "", False
        G = P(st.ts["G"]) + plen(pc)
        if j == 0 and self.sepmode != "after":
            # the separator is written before each but the first, or counted apart
            sep = len(q.sep) if self.sepmode == "before" and self.later(st, K) else 0
            st.ts["K"] = st.norm(K + 1)
            G = G + len(q.open + "".join(q.mids) + q.close) + sep
        elif j == 0:
            K = st.norm(K + 1)
            st.ts["K"] = K
            more = st.decide(c_ge(q.n(e, st) - K - 1))
            if more is None:
                raise NeedSplit(c_ge(q.n(e, st) - K - 1))
            G = G + len(q.open + "".join(q.mids) + q.close) + (len(q.sep) if more else 0)
            st.ts["more"] = more
        st.ts["G"] = st.norm(G)
        st.ts["ip"] = (j + 1) % (len(q.mids) + 1)
        return [st]

    sepmode = "after"
    peeled = False

    def peel(self, fn, L):
        return self.peeled

    def later(self, st, K):
        d = st.decide(c_ge(P(K) - 1))
        if d is None:
            raise NeedSplit(c_ge(P(K) - 1))
        return d

    def loop_head(self, eng, H, fn, L):
        q = self.seq
        if q is None:
            return None
        H = H.copy()
        if H.ts["ip"] == 0 and not H.ts["norm"]:
            if H.ts["buf"] == (q.prefix if H.ts["write"] else ""):
                H.ts["buf"], H.ts["norm"] = "", True
        for s in H.assume(c_ge(P(H.ts["K"]) - self.entry.ts["K"]))[:1]:      # never goes back
            H = s.copy()
        return H

    def loop_change(self, eng, H, T, k, fn, L):
        q = self.seq
        if k in ("K", "G", "pos"):
            return "ghost"
        if k in ("more", "e0"):
            return "drop" if k in H.ts else "ok"
        if k in ("norm", "buf") and q is not None and H.ts["norm"] and H.ts["buf"] == "" and T.ts["ip"] == 0 and not T.ts["norm"]:
            if T.ts["write"]:
                want = q.close + (q.sep if T.ts.get("more") else "")
                if T.ts["buf"] != want:
                    self.bad(T, None, "text", "writes %r after an element instead of %r" % (T.ts["buf"], want))
            return "ok"
        return "no"

    def rel_cands(self, st, item, e0, ghosts):
        if item == ("ts", "pos"):
            return [("G", 1)] if "G" in ghosts else []
        if item[0] == "ts":
            return []
        ptr = split_addr(st.norm(P(e0)))[0] is not None
        if ptr:
            return [("K", 24)] if "K" in ghosts else []
        e0 = st.norm(P(e0))
        return [(g, 1) for g in (("K", "G") if e0.is_const() and e0.cval() == 0 else ("G", "K")) if g in ghosts]

    # numbers and text -----------------------------------------------------------------------
    def snprintf(self, e, st, I, a):
        f = text(e, st, a[2])
        if f is None:
            return [(st, P(fresh("sn", nn=True)))]
        v = st.norm(a[3]) if len(a) > 3 else ZERO
        if st.eq0(P(a[0])):
            return self.measured(e, st, I, ("n", f, v))
        # straight into the output, with room for the terminator
        b, o = split_addr(st.norm(a[0]))
        d = getattr(self, "outdata", None)
        if d is not None and b is d[0]:
            st = st.copy()
            n = snlen(f, v)
            if not st.eq0(o - st.ts["pos"]):
                self.bad(st, I, "place", "writes a part somewhere else than behind the part before it")
            if not st.eq0(P(a[1]) + o - d[1]):
                self.bad(st, I, "room", "allows more than the rest of the output to be written")
            st.ts["pos"] = st.norm(P(st.ts["pos"]) + n)
            st.event("w", ("n", f, v), I)
            return [(st, n)]
        raise AnalysisError("text is printed somewhere unknown")

    def fsnprintf(self, e, st, I, a):
        f = text(e, st, a[2])
        if f is None:
            raise AnalysisError("a number is printed with an unknown format")
        m = re.search(r"rpp::Format::snprintf<.*, ([\w ]+)>\(", self.demname(e, I))
        ty = {"float": ("float", 4), "double": ("double", 8), "long": ("i64", 8), "unsigned long": ("i64", 8), "int": ("i32", 4), "unsigned int": ("i32", 4),
              "short": ("i16", 2), "unsigned short": ("i16", 2), "signed char": ("i8", 1), "unsigned char": ("i8", 1),
              "long long": ("i64", 8), "unsigned long long": ("i64", 8)}.get(m.group(1) if m else "")
        if ty is None:
            raise AnalysisError("a number of an unknown type is printed")
        v = st.norm(e.load(st, P(a[3]), ty[1], ty[0]))
        return self.written(e, st, I, a[0], a[1], ("n", f, v))

    def demname(self, e, I):
        f = e.mod.fns.get(I["fn"])
        return f.dem if f else I["fn"]

    def wchar(self, e, st, I, a):
        c = st.norm(a[2])
        return self.written(e, st, I, a[0], a[1], ("s", chr(int(c.cval()) & 255)) if c.is_const() else ("c", c, P(1)))

    def wview(self, e, st, I, a):
        n = st.norm(a[3])
        t = text(e, st, a[2], int(n.cval())) if n.is_const() else None
        return self.written(e, st, I, a[0], a[1], ("s", t) if t is not None else ("v", st.norm(a[2]), n))

    def wstring(self, e, st, I, a):
        o = self.stro
        return self.written(e, st, I, a[0], a[1], ("v", st.norm(e.load(st, P(a[2]) + o["data_"], 8, "ptr")), st.norm(e.load(st, P(a[2]) + o["length_"], 8, "i64"))))

    def literal(self, e, st, I, a):
        t = text(e, st, a[1])
        if t is None:
            raise AnalysisError("unknown literal")
        st = st.copy()
        e.store(st, P(a[0]) + self.viewo["data_"], P(a[1]), 8, None, "ptr")
        e.store(st, P(a[0]) + self.viewo["length_"], P(len(t)), 8, None, "i64")
        return [(st, None)]

    def row(self, e, st, I, a):
        if I["ty"] == "void":
            raise AnalysisError("row by address")
        raise AnalysisError("row")


def merged(pcs):
    out = []
    for p in pcs:
        if p[0] == "s" and out and out[-1][0] == "s":
            out[-1] = ("s", out[-1][1] + p[1])
        elif p[0] != "s" or p[1]:
            out.append(p)
    return out


def same(st, a, b):
    return len(a) == len(b) and all(x[0] == y[0] and (x[1] == y[1] if x[0] == "s" else
                                                      (x[0] != "n" or x[1] == y[1]) and all(st.eq0(P(u) - P(v)) for u, v in zip(x[1 if x[0] != "n" else 2:], y[1 if x[0] != "n" else 2:])))
                                    for x, y in zip(a, b))


def sbyte(p):
    return P(term("byte", p, nn=True, ub=255))


class ScanModel(FmtModel):
    """A format string is read token by token: %% is a percent sign, any other % is an argument, anything else is itself.

    P: characters consumed, G: characters rendered, GA: arguments rendered, pend: the token that is still to be written."""
    always_ghost = ("P", "GL", "GA", "G", "pos")
    rel_retry = 4

    def start(self, st, fmt, n, args, write):
        self.fmt, self.n, self.args, self.write = fmt, n, args, write
        st.ts.update(P=ZERO, GL=ZERO, GA=ZERO, G=ZERO, pend=None, tok=False)

    def may_unroll(self, eng, fn, L):
        return False

    def on_load(self, eng, st, base, off, size, ty, inst):
        fb, fo = split_addr(self.fmt)
        if base is not fb or size != 1:
            return super().on_load(eng, st, base, off, size, ty, inst)
        off = st.norm(off - fo)
        if not (st.ent(off) and st.ent(P(self.n) - off - 1)):
            st.event("bad", "bounds", "may read outside the format string", inst)
        if not st.ts["tok"] and st.eq0(off - st.ts["P"]):       # one token per iteration: what is read after it is a look ahead
            self.token(eng, st, inst)
        return sbyte(P(fb) + fo + off)

    def need(self, st, c):
        d = st.decide(c)
        if d is None:
            raise NeedSplit(c)
        return d

    def token(self, eng, st, inst):
        pos, n = P(st.ts["P"]), P(self.n)
        here = sbyte(P(self.fmt) + pos)
        step, lit, arg = 1, 1, 0
        what = ("c", here)
        if self.need(st, c_eq(here - 37)):
            esc = False
            if self.need(st, c_ge(n - pos - 2)):
                esc = self.need(st, c_eq(sbyte(P(self.fmt) + pos + 1) - 37))
            if esc:
                step = 2
            else:
                lit, arg, what = 0, 1, ("a", P(st.ts["GA"]))
        if st.ts["pend"] is not None:
            self.skipped(st, inst)
        st.ts["tok"] = True
        if self.write:
            st.ts["pend"] = what
        st.ts["P"] = st.norm(pos + step)
        st.ts["GL"] = st.norm(P(st.ts["GL"]) + lit)
        st.ts["G"] = st.norm(P(st.ts["G"]) + lit)
        st.ts["GA"] = st.norm(P(st.ts["GA"]) + arg)

    def skipped(self, st, inst):
        self.bad(st, inst, "skip", "leaves out an argument" if st.ts["pend"][0] == "a" else "leaves out a character of the format")

    def piece(self, e, st, pc, I):
        if not self.write:
            return [st]
        w = st.ts["pend"]
        st.ts["pend"] = None
        if w is None:
            self.bad(st, I, "extra", "writes something that is not in the format")
        elif w[0] == "c":
            x = P(ord(pc[1])) if pc[0] == "s" and len(pc[1]) == 1 else pc[1] if pc[0] == "c" else None
            if x is None or not (st.eq0(P(x) - w[1])):
                self.bad(st, I, "char", "writes something else than the next character")
        else:
            k = st.norm(w[1])
            if pc[0] != "e" or not k.is_const() or k.cval() >= len(self.args) or not st.eq0(self.args[int(k.cval())] - pc[1]):
                self.bad(st, I, "arg", "writes something else than the next argument")
            st.ts["G"] = st.norm(P(st.ts["G"]) + plen(pc))
        return [st]

    def loop_head(self, eng, H, fn, L):
        for s in H.assume(c_ge(P(self.n) - H.ts["P"]))[:1]:
            s = s.copy()
            s.ts["tok"] = False
            return s

    def loop_change(self, eng, H, T, k, fn, L):
        if k in self.always_ghost:
            return "ghost"
        if k == "tok":
            return "ok"
        if k == "pend":
            if T.ts[k] is not None and H.ts[k] is None:
                self.skipped(T, None)
                return "ok"
        return "no"

    def rel_cands(self, st, item, e0, ghosts):
        if item == ("ts", "pos"):
            return [("G", 1)] if "G" in ghosts else []
        if item == ("ts", "G"):
            return [("GL", 1)] if "GL" in ghosts else []
        if item[0] == "ts" or split_addr(st.norm(P(e0)))[0] is not None:
            return []
        return [(g, 1) for g in ("P", "GL", "GA", "G") if g in ghosts]


ALLOC = [r"^rpp::Mallocator<.*>::(alloc|free)\(", r"^rpp::Mregion<.*>::(alloc|free)\(", r"^rpp::Region_Allocator::"]
TXT = [o for o in OPQ if "Format::snprintf" not in o] + ALLOC + [
    r"rpp::format_length<", r"6Format5writeI", r"rpp::Format::write<", r"String_View::terminate<", r"is_whitespace", r"rpp::Format::parse_string", r"rpp::Format::parse_fmt",
    r"rpp::Libc::strto"]
WRITES = r"^_ZN3rpp6StringI.*E5writeI"


class TextModel(FmtModel):
    """one string is built or read; allocation, scanning and number conversion are opaque"""

    def __init__(self):
        super().__init__()
        self.rets = {}
        A = r"^rpp::(Mallocator|Mregion)<.*>::"
        self.h(A + r"alloc\(", self.alloc)
        self.h(A + r"free\(", lambda e, st, I, a: [(st, None)])
        self.h(r"^rpp::Region_Allocator::", lambda e, st, I, a: [(st, None if I["ty"] == "void" else P(fresh("region", nn=True)))])
        self.h(r"rpp::format_length<", self.flength)
        self.h(r"6Format5writeI|rpp::Format::write<", self.fwrite)
        self.h(WRITES, self.wstring)
        self.h(r"is_whitespace", lambda e, st, I, a: [(st, ws(st.norm(a[0])))])
        self.h(r"rpp::Libc::strto(ll|f)", self.strto)
        self.h(r"String_View::terminate<", self.terminate)
        self.h(r"rpp::Libc::memcmp", self.memcmp)
        self.h(r"rpp::Format::parse_string", self.pstring)

    def alloc(self, e, st, I, a):
        n = a[-1]
        out = []
        for s in st.assume(c_eq(n)):
            out.append((s.copy(), ZERO))
        for s in st.assume(c_ge(P(n) - 1)):
            s = s.copy()
            b = fresh("heap", ptr=True)
            s = s.assume1(c_ge(P(b) - 1)).copy()
            s.ts[("room", b)] = s.norm(n)
            out.append((s, P(b)))
        return out

    def flength(self, e, st, I, a):
        st = st.copy()
        n = P(fresh("length", nn=True))
        st.event("flen", [st.norm(x) for x in a], n, I)
        return [(st, n)]

    def fwrite(self, e, st, I, a):
        """returns the position behind the text, which is what the length says"""
        st = st.copy()
        fl = [x for x in st.events() if x[0] == "flen"]
        st.event("fwrite", [st.norm(x) for x in a], self.strat(e, st, a[3]), I)
        return [(st, st.norm(P(a[4]) + fl[-1][2]) if fl else P(fresh("end", nn=True)))]

    def snprintf(self, e, st, I, a):
        n = P(term("sn", st.norm(a[2]), st.norm(a[3]), nn=True, ub=1 << 30))
        st = st.copy()
        if st.eq0(P(a[0])):
            return [(st, n)]
        b = split_addr(st.norm(a[0]))
        room = st.ts.get(("room", b[0]))
        if room is None or not st.ent(P(room) - b[1] - a[1]):
            self.bad(st, I, "room", "allows more to be written than fits into the buffer")
        if not st.ent(P(a[1]) - n - 1):
            self.bad(st, I, "cut", "prints into a buffer that is too short")
        st.event("printed", st.norm(a[0]), n, st.norm(a[2]), st.norm(a[3]), I)
        return [(st, n)]

    def strat(self, e, st, p):
        o = self.stro
        return tuple(st.norm(e.load(st, P(p) + o[f], 8, t)) for f, t in (("data_", "ptr"), ("length_", "i64"), ("capacity_", "i64")))

    def strto(self, e, st, I, a):
        """stops at the first character that does not belong to the number, at most at the terminator"""
        st = st.copy()
        k = P(fresh("used", nn=True))
        tm = st.ts.get("term")
        if tm is None or not st.eq0(P(a[0]) - tm[0]):
            self.bad(st, I, "input", "converts something else than the terminated input")
            n = P(1 << 40)
        else:
            n = tm[1]
        st = st.assume1(c_ge(P(n) - k)).copy()
        st.event("strto", k, I)
        e.store(st, P(a[1]), P(a[0]) + k, 8, None, "ptr")
        if len(a) > 2 and not st.eq0(P(a[2]) - 10):
            self.bad(st, I, "base", "reads numbers in another base than ten")
        v = P(fresh("number"))
        st.ts["number"] = (v, k)
        return [(st, v)]

    def terminate(self, e, st, I, a):
        # (result, this)
        st = st.copy()
        d, n = (st.norm(e.load(st, P(a[1]) + self.viewo[f], 8, t)) for f, t in (("data_", "ptr"), ("length_", "i64")))
        b = fresh("heap", ptr=True)
        st = st.assume1(c_ge(P(b) - 1)).copy()
        if not (st.eq0(d - self.view[0]) and st.eq0(n - self.view[1])):
            self.bad(st, I, "input", "converts something else than the input")
        for f, v, t in (("data_", P(b), "ptr"), ("length_", n + 1, "i64"), ("capacity_", n + 1, "i64")):
            e.store(st, P(a[0]) + self.stro[f], v, 8, None, t)
        st.ts["term"] = (P(b), n)
        return [(st, None)]

    def memcmp(self, e, st, I, a):
        n = st.norm(a[2])
        if not n.is_const():
            raise AnalysisError("compares a text of unknown length")
        for x, y in ((a[0], a[1]), (a[1], a[0])):
            t = text(e, st, y, int(n.cval()))
            if t is not None:
                for u in st.ts.get("texts", ()):
                    if u != t and len(u) == len(t) and st.eq0(P(term("differs", st.norm(x), u))):
                        return [(st, P(1))]
                st = st.copy()
                st.ts["texts"] = st.ts.get("texts", ()) + (t,)
                return [(st, P(term("differs", st.norm(x), t)))]
        raise AnalysisError("compares unknown texts")

    def pstring(self, e, st, I, a):
        """(result, view): a word and the rest, or nothing"""
        st = st.copy()
        st.event("pstring", [st.norm(x) for x in a[1:]], I)
        w = self.word
        for o, v, sz, t in ((self.oo["ok_"], w["ok"], 1, "i8"), (self.oo["name.data_"], w["name"][0], 8, "ptr"), (self.oo["name.length_"], w["name"][1], 8, "i64"),
                            (self.oo["rest.data_"], w["rest"][0], 8, "ptr"), (self.oo["rest.length_"], w["rest"][1], 8, "i64")):
            e.store(st, P(a[0]) + o, v, sz, None, t)
        return [(st, None)]


def ws(b):
    return P(term("ws", b, nn=True, ub=1))


class WordModel(ScanModel, TextModel):
    """leading blanks, a word, and the rest; lead: the first n blanks are known, word: characters from W to P are no blanks"""
    always_ghost = ("P",)

    def __init__(self):
        TextModel.__init__(self)

    def start(self, st, s, n):
        self.fmt, self.n, self.write = s, n, False
        st.ts.update(P=ZERO, tok=False, phase="lead", W=None)

    def token(self, eng, st, inst):
        pos = P(st.ts["P"])
        if st.ts["phase"] == "end":
            return
        blank = self.need(st, c_ge(ws(sbyte(P(self.fmt) + pos)) - 1))
        if blank != (st.ts["phase"] == "lead"):
            if st.ts["phase"] == "lead":
                st.ts["W"] = st.norm(pos)
            st.ts["phase"] = "word" if st.ts["phase"] == "lead" else "end"
            return
        st.ts["tok"] = True
        st.ts["P"] = st.norm(pos + 1)

    def loop_head(self, eng, H, fn, L):
        H = super().loop_head(eng, H, fn, L)
        for s in H.assume(c_ge(P(H.ts["P"]) - self.entry.ts["P"]))[:1]:      # never goes back
            return s.copy()

    def rel_cands(self, st, item, e0, ghosts):
        if item[0] == "ts" or split_addr(st.norm(P(e0)))[0] is not None:
            return []
        return [(g, 1) for g in ("P",) if g in ghosts]


def impossible(st):
    """one character both is a blank and is none"""
    seen = {}
    for k, v in st.sm.items():
        if isinstance(k, Term) and k.op == "ws":
            a = st.norm(k.args[0])
            b = seen.setdefault(a, v)
            d = st.norm(P(b) - v)
            if d.is_const() and d.cval():
                return True
    return False
