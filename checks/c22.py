"""Formatting: the measured length is the written length, and the text is the specified rendering."""
from fmtmodel import *

NUM = {"i8": ("%hhd", 1, "i8", True), "i16": ("%hd", 2, "i16", True), "i32": ("%d", 4, "i32", True), "i64": ("%ld", 8, "i64", True),
       "u8": ("%hhu", 1, "i8", False), "u16": ("%hu", 2, "i16", False), "u32": ("%u", 4, "i32", False), "u64": ("%lu", 8, "i64", False),
       "f32": ("%f", 4, "float", True), "f64": ("%f", 8, "double", True)}


class Rec:
    """keeps what one attempt reports"""

    def __init__(self, ctx):
        self.ctx, self.log = ctx, []

    def ok(self, *a):
        self.log.append(("ok", a))

    def bad(self, *a):
        self.log.append(("bad", a))

    def undecided(self, *a):
        self.log.append(("undecided", a))

    def count(self, *a):
        self.log.append(("count", a))

    def good(self):
        return all(k in ("ok", "count") for k, a in self.log)

    def play(self):
        for k, a in self.log:
            getattr(self.ctx, k)(*a)


class FR:
    def __init__(self, ctx, mod, L):
        self.ctx, self.mod, self.L = ctx, mod, L
        self.o = {k[2:]: {x.split(".", 1)[1]: o for x, (o, t) in v.items() if "." in x} for k, v in L.items()}

    def model(self, seq=None):
        m = FmtModel(seq)
        m.viewo, m.stro = self.o["view"], self.o["string"]
        m.item = 24
        return m

    def run(self, name, key, kind, spec, seq=None, prep=None):
        """kind m or w; spec(p, v) -> pieces of the rendering of the value v on path p"""
        if seq is None or not seq.sep:
            return self.run1(self.ctx, name, key, kind, spec, seq, prep, "after")
        first = None
        # where separators are accounted, and whether the first round is told apart
        for mode in ("after", "before", "apart", "after peeled", "before peeled"):
            if mode == "apart" and kind != "m":
                continue
            rec = Rec(self.ctx)
            self.run1(rec, name, key, kind, spec, seq, prep, mode)
            if rec.good():
                return rec.play()
            first = first or rec
        first.play()

    def run1(self, ctx, name, key, kind, spec, seq, prep, mode):
        m = self.model(seq)
        m.sepmode, m.peeled = mode.split()[0], mode.endswith("peeled")
        nm = "%s of %s" % ("measure" if kind == "m" else "rendering", name)

        def start(eng, st, syms):
            st = st.copy()
            v = syms[-1]
            m.i0 = syms[1] if kind == "w" else ZERO
            st.ts.update(pos=P(m.i0))
            if seq is not None:
                st.ts.update(K=ZERO, G=ZERO, buf="", ip=0, norm=False, write=kind == "w")
            if kind == "w":
                so = self.o["string"]
                d = fresh("out", ptr=True, nn=True)
                n = P(fresh("outlen", nn=True))
                b = split_addr(syms[0])[0]
                eng.set_cell(st, b, P(so["data_"]), 8, P(d))
                eng.set_cell(st, b, P(so["length_"]), 8, n)
                m.outdata = (d, n)
            if prep:
                st = prep(eng, st, v) or st
            return st
        try:
            eng, syms, ps = traces(self.mod, m, "h_%s_%s" % (kind, key), start)
        except (AnalysisError, NeedSplit, KeyError) as e:
            return ctx.undecided(nm, "%s %s" % (type(e).__name__, e))
        ctx.count("paths", len(ps))
        n = 0
        seen = set()

        def bad(k, msg, w):
            if (k, msg) not in seen:
                seen.add((k, msg))
                ctx.bad(nm, "%s:%s:%s" % (key, kind, k), "%s: %s (%s)" % (nm, msg, w))
        for p in ps:
            p.eng = eng
            for e in p.ev:
                if e[0] == "bad":
                    bad(e[1], e[2], ir.where(e[3]) if e[3] else p.where())
                elif e[0] == "badptr":
                    bad("wild", "uses a null or wild pointer", ir.where(e[-1]) if e[-1] else "?")
            if p.kind == "die":
                bad("dies", "terminates the program", p.where())
            if p.kind != "ret":
                continue
            try:
                r = self.finish(p, syms, kind, spec, seq, m)
            except (AnalysisError, KeyError) as e:
                return ctx.undecided(nm, str(e))
            if r:
                bad("result", r, p.where())
        if not seen and not any(p.kind == "ret" for p in ps):
            return ctx.bad(nm, "%s:%s:never" % (key, kind), nm + ": never returns")
        if not seen:
            ctx.ok(nm, "%d paths" % len(ps))

    def finish(self, p, syms, kind, spec, seq, m):
        st = p.st
        if seq is not None:
            K, G, n = P(st.ts["K"]), P(st.ts["G"]), seq.n(p.eng, st)
            if st.ts["ip"]:
                return "stops inside an element"
            if m.assume_all:
                for s in st.assume(c_eq(K - n))[:1]:
                    st = p.st = s
                if not p.st.eq0(K - n):
                    return None
            if not st.eq0(K - n):
                return "does not render every element"
            if kind == "w":
                buf = st.ts["buf"]
                want = seq.suffix if st.ts["norm"] else (seq.prefix if st.eq0(K) else seq.close) + seq.suffix
                if buf != want:
                    return "ends with %r instead of %r" % (buf, want)
            total = G + len(seq.prefix + seq.suffix)
            if m.sepmode == "apart":
                z = st.decide(c_eq(n))
                if z is None:
                    raise AnalysisError("cannot tell whether it is empty")
                total = total + (ZERO if z else (n - 1) * len(seq.sep))
            if not st.eq0(P(p.ret) - m.i0 - total):
                return "the length is not that of the rendering" if kind == "m" else "does not return the position behind the rendering"
            return None
        want = merged(spec(p, syms[-1]))
        total = ZERO
        for x in want:
            total = total + plen(x)
        if kind == "w":
            got = merged([e[1] for e in p.ev if e[0] == "w"])
            if not same(st, got, want):
                return "writes %s instead of %s" % (show(got), show(want))
        if not st.eq0(P(p.ret) - m.i0 - total):
            return "the length is not that of the rendering %s" % show(want) if kind == "m" else "does not return the position behind the rendering"
        return None

    def both(self, name, key, spec, seq=None, prep=None):
        FmtModel.assume_all = key == "map"
        for kind in "mw":
            self.run(name, key, kind, spec, seq, prep)


def show(pcs):
    return " ".join(repr(x[1]) if x[0] == "s" else "<%s>" % (x[1] if x[0] == "n" else x[0]) for x in pcs)


def s(x):
    return ("s", x)


def e(a):
    return ("e", a)


def types(R):
    o = R.o

    def fld(p, v, off, sz=8, ty="ptr"):
        return P(p.st.norm(p.eng.load(p.st, P(v) + off, sz, ty)))

    # sequences
    def cont(name, key, word, data="data_", length="length_", close="]", fix=None):
        """the elements in storage order"""
        box = {}

        def prep(eng, st, v):
            st = st.copy()
            b, off = split_addr(v)
            d = P(fresh("data", ptr=True, nn=True))
            n = P(fresh("n", nn=True)) if fix is None else P(fix)
            if data is None:
                d = P(v)
            else:
                eng.set_cell(st, b, P(o[key][data]), 8, d)
                eng.set_cell(st, b, P(o[key][length]), 8, n)
            box.update(d=d, n=n)
            if key == "queue":
                cap, last = P(fresh("cap", nn=True)), P(fresh("last", nn=True))
                eng.set_cell(st, b, P(o[key]["capacity_"]), 8, cap)
                eng.set_cell(st, b, P(o[key]["last_"]), 8, last)
                st.facts = st.facts + (cap - n, cap - last - 1)
                box.update(cap=cap, last=last)
            return st

        def elem(eng, st, K, j):
            i = K
            if key == "queue":
                i = box["last"] - box["n"] + K
                lo = st.decide(c_ge(i))
                if lo is None:
                    raise NeedSplit(c_ge(i))
                if not lo:
                    i = i + box["cap"]
            return box["d"] + i * 24
        seq = Seq(word + "[", close, lambda eng, st: box["n"], elem)
        R.both(name, key, None, seq, prep)
    cont("vectors", "vec", "Vec")
    cont("slices", "slice", "Slice")
    cont("stacks", "stack", "Stack", "data_.data_", "data_.length_")
    cont("heaps", "heap", "Heap")
    cont("queues", "queue", "Queue")
    cont("arrays", "array", "", None, fix=3)
    cont("arrays of one", "array1", "", None, fix=1)
    cont("built-in arrays", "carray", "", None, fix=3)

    box = {}

    def mprep(eng, st, v):
        st = st.copy()
        b, off = split_addr(v)
        n = P(fresh("n", nn=True))
        eng.set_cell(st, b, P(o["map"]["length_"]), 8, n)
        box["n"] = n
        return st
    R.both("maps", "map", None, Seq("Map[", "]", lambda eng, st: box["n"], lambda eng, st, K, j: None, open="{", mids=(" : ",), close="}"), mprep)

    # text
    def str_(p, v):
        k = "string"
        return [("v", fld(p, v, o[k]["data_"]), fld(p, v, o[k]["length_"], 8, "i64"))]
    R.both("strings", "string", str_)
    R.both("string views", "view", lambda p, v: [("v", fld(p, v, o["view"]["data_"]), fld(p, v, o["view"]["length_"], 8, "i64"))])

    # handles
    def handle(word, key, field, inner, none="null", counted=False):
        def spec(p, v):
            d = fld(p, v, o[key][field])
            null = p.st.decide(c_eq(d))
            if null is None:
                raise AnalysisError("cannot tell whether it is empty")
            if null:
                return [s("%s{%s}" % (word, none))]
            return [s(word + "{"), e(d + inner), s("}")]
        return spec
    R.both("references", "ref", handle("Ref", "ref", "value_", 0))
    R.both("boxes", "box", handle("Box", "box", "data_", 0))

    def counted(word):
        def spec(p, v):
            d = fld(p, v, 0)
            null = p.st.decide(c_eq(d))
            if null is None:
                raise AnalysisError("cannot tell whether it is empty")
            if null:
                return [s(word + "{null}")]
            es = [x[1] for x in p.ev if x[0] in "mw" and x[1][0] == "e"]
            ns = [x[1] for x in p.ev if x[0] in "mw" and x[1][0] == "n"]
            if len(es) != 1 or len(ns) != 1:
                return [s("one count and one value")]
            b, off = split_addr(p.st.norm(es[0][1]))
            if b is not split_addr(p.st.norm(d))[0]:
                return [s("the value held")]
            c = p.st.norm(ns[0][2])
            if ns[0][1] != "%lu":
                return [s("an unsigned count")]
            ok = [p.st.norm(P(term("count", p.st.norm(d)))), p.st.norm(fld(p, d, 0, 8, "i64"))]
            if not any(p.st.eq0(c - x) for x in ok):
                return [s("the number of references")]
            return [s(word + "["), ("n", "%lu", c), s("]{"), es[0], s("}")]
        return spec
    R.both("shared handles", "rc", counted("Rc"))
    R.both("atomic shared handles", "arc", counted("Arc"))

    def opt(p, v):
        ok = fld(p, v, o["opt"]["ok_"], 1, "i8")
        z = p.st.decide(c_eq(ok))
        if z is None:
            raise AnalysisError("cannot tell whether it is empty")
        return [s("Opt{None}")] if z else [s("Opt{"), e(P(v) + o["opt"]["value_"]), s("}")]
    R.both("optionals", "opt", opt, prep=lambda eng, st, v: setbool(eng, st, v, o["opt"]["ok_"]))

    R.both("pairs", "pair", lambda p, v: [s("Pair{"), e(P(v)), s(", "), e(P(v) + 24), s("}")])
    R.both("empty tuples", "tuple0", lambda p, v: [s("Tuple{}")])
    R.both("tuples of one", "tuple1", lambda p, v: [s("Tuple{"), e(P(v)), s("}")])
    tu = o["tuple"]
    R.both("tuples", "tuple3", lambda p, v: [s("Tuple{"), e(P(v) + tu["first"]), s(", "), e(P(v) + tu["rest.first"]), s(", "), e(P(v) + tu["rest.rest.first"]), s("}")])

    def variant(key, names):
        def spec(p, v):
            i = fld(p, v, o[key]["index_"], 1, "i8")
            for k, (a, b) in enumerate(names):
                d = p.st.decide(c_eq(i - k))
                if d is None:
                    raise AnalysisError("cannot tell the alternative")
                if d:
                    return [s("Variant{" + a), e(P(v) + o[key]["data_"]), s(b + "}")]
            raise AnalysisError("no alternative")

        def prep(eng, st, v):
            st = st.copy()
            i = P(fresh("index", nn=True))
            eng.set_cell(st, split_addr(v)[0], P(o[key]["index_"]), 1, i)
            st.facts = st.facts + (P(len(names) - 1) - i,)
            return st
        R.both("variants" if key == "variant" else "variants with names", key, spec, prep=prep)
    variant("variant", [("", ""), ("", "")])
    variant("nvariant", [("A{", "}"), ("Bc{", "}")])
    re_ = o["rec"]
    R.both("records", "rec", lambda p, v: [s("Rec{first : "), e(P(v) + re_["first"]), s(", second : "), e(P(v) + re_["second"]), s(", c : "), e(P(v) + re_["c"]), s("}")])
    R.both("records of one", "rec1", lambda p, v: [s("Single{only : "), e(P(v)), s("}")])
    R.both("empty records", "rec0", lambda p, v: [s("Rec0{}")])

    def en(p, v):
        x = fld(p, v, 0, 1, "i8")
        out = "En::"
        for nm, val in (("zero", 0), ("five", 5), ("other", 200)):
            d = p.st.decide(c_eq(x - val))
            if d is None and val == 200:
                d = p.st.decide(c_eq(x + 56))
            if d is None:
                raise AnalysisError("cannot tell the case")
            if d:
                out += nm
        return [s(out)]
    R.both("enumerations", "en", en)
    R.both("storage", "storage", lambda p, v: [s("Storage<Tok>")])

    # numbers
    def num(key):
        f, sz, ty, signed = NUM[key]

        def spec(p, v):
            x = fld(p, v, 0, sz, ty)
            got = [y[1] for y in p.ev if y[0] in "mw" and y[1][0] == "n"]
            if signed and sz < 4 and len(got) == 1 and p.st.eq0(P(term("sext", x, ty)) - got[0][2]):
                x = got[0][2]
            return [("n", f, x)]
        return spec
    for k in NUM:
        R.both(k, k, num(k))
    R.both("truth values", "bool", lambda p, v: [s("false" if boolean(p, fld(p, v, 0, 1, "i8")) else "true")], prep=lambda eng, st, v: setbool(eng, st, v, 0))
    R.both("characters", "char", lambda p, v: [("c", fld(p, v, 0, 1, "i8"), P(1))])

    def ptr(p, v):
        d = fld(p, v, 0)
        z = p.st.decide(c_eq(d))
        if z is None:
            raise AnalysisError("cannot tell whether it is null")
        return [s("(null)")] if z else [s("("), ("n", "%p", d), s(")")]
    R.both("pointers", "ptr", ptr)

    # vectors and matrices
    def vect(key, n, word, f="%f", ty="float"):
        def spec(p, v):
            out = [s("Vec"), ("n", "%lu", P(n)), s(word + "{")]
            for i in range(n):
                out += [("n", f, fld(p, v, 4 * i, 4, ty))] + ([s(", ")] if i + 1 < n else [])
            return out + [s("}")]
        R.both("%d-vectors%s" % (n, {"": "", "i": " of signed integers", "u": " of unsigned integers"}[word]), key, spec)
    vect("vec2", 2, "")
    vect("vec3", 3, "")
    vect("vec4", 4, "")
    vect("vec5", 5, "")
    vect("vec3i", 3, "i", "%d", "i32")
    vect("vec4u", 4, "u", "%u", "i32")

    def mat(p, v):
        out = [s("Mat4{")]
        for i in range(4):
            out.append(s("{"))
            for j in range(4):
                out += [("n", "%f", fld(p, v, 16 * i + 4 * j, 4, "float")), s(", " if j < 3 else "}")]
            out.append(s(", " if i < 3 else "}"))
        return out
    R.both("matrices", "mat4", mat)

    def floats(word, n, groups):
        def spec(p, v):
            out = []
            for i in range(n):
                out += [s(groups[i]), ("n", "%f", fld(p, v, 4 * i, 4, "float"))]
            return [s(word)] + out + [s(groups[n])]
        return spec
    R.both("quaternions", "quat", floats("Quat{", 4, ["", ", ", ", ", ", ", "}"]))
    R.both("bounding boxes", "bbox", floats("BBox{{", 6, ["", ", ", ", ", "}, {", ", ", ", ", "}}"]))


class Drive:
    """the format string scanner"""

    def __init__(self, ctx, mod, L):
        self.ctx, self.mod = ctx, mod
        self.fr = FR(ctx, mod, L)
        self.o = self.fr.o

    def run(self, name, fname, kind, nargs):
        ctx, o = self.ctx, self.o
        m = ScanModel()
        m.viewo, m.stro = o["view"], o["string"]

        def start(eng, st, syms):
            st = st.copy()
            d, n = fresh("fmt", ptr=True, nn=True), P(fresh("fmtlen", nn=True))
            eng.set_cell(st, split_addr(syms[0])[0], P(o["view"]["data_"]), 8, P(d))
            eng.set_cell(st, split_addr(syms[0])[0], P(o["view"]["length_"]), 8, n)
            args = [P(a) for a in syms[len(syms) - nargs:]] if nargs else []
            m.start(st, P(d), n, args, kind == "put")
            m.i0 = ZERO
            st.facts = st.facts + (P(1 << 40) - n,)
            if kind == "put":
                # everything before the position given was consumed before
                m.i0 = syms[3]
                st.ts["P"] = P(syms[1])
                st.ts["pos"] = P(syms[3])
                st.facts = st.facts + (n - P(syms[1]),)
                d2, n2 = fresh("out", ptr=True, nn=True), P(fresh("outlen", nn=True))
                b = split_addr(syms[2])[0]
                eng.set_cell(st, b, P(o["string"]["data_"]), 8, P(d2))
                eng.set_cell(st, b, P(o["string"]["length_"]), 8, n2)
                m.outdata = (d2, n2)
            return st
        try:
            eng, syms, ps = traces(self.mod, m, fname, start)
        except (AnalysisError, NeedSplit, KeyError) as e:
            return ctx.undecided(name, "%s %s" % (type(e).__name__, e))
        ctx.count("paths", len(ps))
        seen = set()

        def bad(k, msg, w):
            if (k, msg) not in seen:
                seen.add((k, msg))
                ctx.bad(name, "%s:%s" % (fname[2:], k), "%s: %s (%s)" % (name, msg, w))
        for p in ps:
            p.eng = eng
            st = p.st
            for e in p.ev:
                if e[0] == "bad":
                    bad(e[1], e[2], ir.where(e[3]) if e[3] else p.where())
                elif e[0] == "badptr":
                    bad("wild", "uses a null or wild pointer", ir.where(e[-1]) if e[-1] else "?")
            GA, GL, w = P(st.ts["GA"]), P(st.ts["GL"]), st.ts["pend"]
            if p.kind == "die":
                if kind == "put" and (w is None or w[0] != "a" or not st.ent(P(w[1]) - nargs)):
                    bad("dies", "terminates the program although no argument is missing", p.where())
                elif kind == "len" and (not nargs or st.eq0(GA - nargs)):
                    bad("dies", "terminates the program although the arguments match the format", p.where())
                elif kind == "parse":
                    bad("dies", "terminates the program", p.where())
            if p.kind != "ret":
                continue
            if not st.eq0(P(m.n) - st.ts["P"]):
                bad("rest", "does not read the whole format", p.where())
                continue
            if w is not None:
                bad("skip", "leaves out an argument" if w[0] == "a" else "leaves out a character of the format", p.where())
            r = P(p.ret)
            if kind == "parse":
                if not st.eq0(r - GL):
                    bad("result", "does not return the number of characters outside arguments", p.where())
                if not st.eq0(P(eng.load(st, P(syms[1]), 8, "i64")) - GA):
                    bad("args", "does not count the arguments", p.where())
            elif kind == "len":
                es = [e[1][1] for e in p.ev if e[0] == "m"]
                if len(es) != nargs or not all(any(st.eq0(x - a) for x in es) for a in m.args):
                    bad("measure", "does not measure every argument once", p.where())
                if nargs and not st.eq0(GA - nargs):
                    bad("count", "accepts a format with another number of arguments", p.where())
                if not st.eq0(r - GL - sum((mlen(st.norm(a)) for a in m.args), ZERO)):
                    bad("result", "the length is not that of the text and the arguments", p.where())
            elif not st.eq0(r - st.ts["pos"]):
                bad("result", "does not return the position behind the text", p.where())
        if not any(p.kind == "ret" for p in ps):
            return ctx.bad(name, "%s:never" % fname[2:], name + ": never returns")
        if not seen:
            ctx.ok(name, "%d paths" % len(ps))


def drivers(ctx, mod, L):
    D = Drive(ctx, mod, L)
    D.run("scanning a format", "h_parse", "parse", 0)
    D.run("length of a format without arguments", "h_len0", "len", 0)
    D.run("length of a format with an argument", "h_len1", "len", 1)
    D.run("length of a format with three arguments", "h_len3", "len", 3)
    D.run("text of a format without arguments", "h_put0", "put", 0)
    D.run("text of a format with an argument", "h_put1", "put", 1)
    D.run("text of a format with three arguments", "h_put3", "put", 3)


class Text:
    """one string is built or read"""

    def __init__(self, ctx, mod, L):
        self.ctx, self.mod = ctx, mod
        self.o = FR(ctx, mod, L).o

    def run(self, name, fname, prep, fin, cls=TextModel, dies=False):
        """prep(m, eng, st, syms); fin(m, p, syms) yields (key, message)"""
        ctx, o = self.ctx, self.o
        m = cls()
        m.viewo, m.stro = o["view"], o["string"]

        def start(eng, st, syms):
            st = st.copy()
            st.ts["pos"] = ZERO
            m.i0 = ZERO
            return prep(m, eng, st, syms) or st
        try:
            eng, syms, ps = traces(self.mod, m, fname, start)
        except (AnalysisError, NeedSplit, KeyError) as e:
            return ctx.undecided(name, "%s %s" % (type(e).__name__, e))
        ctx.count("paths", len(ps))
        seen = set()

        def bad(k, msg, w):
            if (k, msg) not in seen:
                seen.add((k, msg))
                ctx.bad(name, "%s:%s" % (fname[2:], k), "%s: %s (%s)" % (name, msg, w))
        for p in ps:
            p.eng = eng
            if impossible(p.st):
                continue
            for e in p.ev:
                if e[0] == "bad":
                    bad(e[1], e[2], ir.where(e[3]) if e[3] else p.where())
                elif e[0] == "badptr":
                    bad("wild", "uses a null or wild pointer", ir.where(e[-1]) if e[-1] else "?")
            if p.kind == "die" and not dies:
                bad("dies", "terminates the program", p.where())
            if p.kind == "ret":
                try:
                    for k, msg in fin(m, p, syms):
                        bad(k, msg, p.where())
                except (AnalysisError, KeyError) as e:
                    return ctx.undecided(name, str(e))
        if not any(p.kind == "ret" for p in ps):
            return ctx.bad(name, "%s:never" % fname[2:], name + ": never returns")
        if not seen:
            ctx.ok(name, "%d paths" % len(ps))

    def view(self, eng, st, at, nm):
        """an unknown text at a pointer: (data, length)"""
        d, n = P(fresh(nm, ptr=True, nn=True)), P(fresh(nm + "len", nn=True))
        b = split_addr(at)[0]
        eng.set_cell(st, b, P(self.o["view"]["data_"]), 8, d)
        eng.set_cell(st, b, P(self.o["view"]["length_"]), 8, n)
        st.facts = st.facts + (P(1 << 40) - n,)
        return d, n

    def ld(self, p, a, sz=8, ty="i64"):
        return P(p.st.norm(p.eng.load(p.st, P(a), sz, ty)))

    def holds(self, p, at, key="string"):
        o = self.o[key]
        return self.ld(p, P(at) + o["data_"], 8, "ptr"), self.ld(p, P(at) + o["length_"])


def texts(ctx, mod, L):
    T = Text(ctx, mod, L)
    o = T.o

    # format
    def fprep(m, eng, st, syms):
        m.view = T.view(eng, st, syms[1], "fmt")

    def ffin(nargs):
        def fin(m, p, syms):
            st = p.st
            fl = [e for e in p.ev if e[0] == "flen"]
            fw = [e for e in p.ev if e[0] == "fwrite"]
            if len(fl) != 1 or len(fw) != 1:
                yield "once", "does not write the format once"
                return
            args = [P(x) for x in syms[2:2 + nargs]]

            def eq(xs, ys):
                return len(xs) == len(ys) and all(st.eq0(P(x) - y) for x, y in zip(xs, ys))
            if not eq(fl[0][1], list(m.view) + args):
                yield "measured", "measures something else than the format and the arguments"
            if not eq(fw[0][1][:3] + fw[0][1][4:], list(m.view) + [ZERO, ZERO] + args):
                yield "written", "writes something else than the format and the arguments from the start"
            d, n, c = fw[0][2]
            want = fl[0][2]
            if not (st.eq0(n - want) and st.ent(c - n)):
                yield "room", "writes into a string that is not as long as the text"
            b = split_addr(d)[0]
            if not st.eq0(want) and not (b is not None and ("room", b) in st.ts and st.ent(P(st.ts[("room", b)]) - want)):
                yield "room", "writes into storage that is shorter than the text"
            D, N = T.holds(p, syms[0])
            if not (st.eq0(D - d) and st.eq0(N - want)):
                yield "result", "returns something else than the text written"
        return fin
    T.run("formatting with arguments", "h_format", fprep, ffin(2))
    T.run("formatting without arguments", "h_format0", fprep, ffin(0))

    # concatenation
    def cprep(m, eng, st, syms):
        m.views = [T.view(eng, st, x, "part%d" % i) for i, x in enumerate(syms[1:])]

    def cfin(m, p, syms):
        st = p.st
        sep, parts = m.views[0], m.views[1:]
        want = []
        for i, x in enumerate(parts):
            want += [sep, x] if i else [x]
        want = [("v", d, n) for d, n in want if not st.eq0(n)]
        got = [e[1] for e in p.ev if e[0] == "w"]
        got = [x for x in got if not (x[0] == "v" and st.eq0(x[2]))]
        if len(got) != len(want) or not same(st, got, want):
            yield "parts", "does not write the parts in order with the separator between them"
        total = sum((x[1] for x in parts), ZERO) + sep[1] * (len(parts) - 1)
        D, N = T.holds(p, syms[0])
        if not st.eq0(N - total):
            yield "length", "the result is not as long as its parts"
        b = split_addr(D)[0]
        if not st.eq0(total) and not (b is not None and ("room", b) in st.ts and st.ent(P(st.ts[("room", b)]) - total)):
            yield "room", "the storage is shorter than the parts"
        if not st.eq0(P(st.ts["pos"]) - total):
            yield "all", "does not fill the result"
    T.run("concatenating three texts", "h_concat", cprep, cfin)
    T.run("concatenating one text", "h_concat1", cprep, cfin)

    # numbers through a buffer
    def sprep(m, eng, st, syms):
        m.view = T.view(eng, st, syms[0], "out")
        st.ts["pos"] = P(syms[1])

    def sfin(m, p, syms):
        st = p.st
        pr = [e for e in p.ev if e[0] == "printed"]
        got = [e[1] for e in p.ev if e[0] == "w"]
        got = [x for x in got if not (x[0] == "v" and st.eq0(x[2]))]
        if len(pr) != 1 or len(got) > 1 or not got and not st.eq0(pr[0][2]):
            yield "once", "does not print and write once"
            return
        e = pr[0]
        x = T.ld(p, syms[3], 4, "float")
        if not (st.eq0(e[3] - P(syms[2])) and st.eq0(e[4] - x)):
            yield "value", "prints something else than the value"
        if got and (got[0][0] != "v" or not st.eq0(got[0][1] - e[1]) or not st.eq0(got[0][2] - e[2])):
            yield "text", "writes something else than the digits printed"
        if not st.eq0(P(p.ret) - P(syms[1]) - e[2]):
            yield "result", "does not return the position behind the digits"
    T.run("printing a number", "h_snprintf", sprep, sfin)

    # reading numbers
    def nprep(m, eng, st, syms):
        m.view = T.view(eng, st, syms[1], "text")

    def opt_of(p, at, ok, pair):
        z = p.st.decide(c_eq(T.ld(p, P(at) + o[ok]["ok_"], 1, "i8")))
        if z is None:
            raise AnalysisError("cannot tell whether there is a result")
        if z:
            return None
        a = P(at) + o[ok]["value_"]
        return a + o[pair]["first"], T.holds(p, a + o[pair]["second"], "view")

    def nfin(ok, pair, sz, ty):
        def fin(m, p, syms):
            st = p.st
            nb = st.ts.get("number")
            if nb is None:
                yield "never", "does not read a number"
                return
            r = opt_of(p, syms[0], ok, pair)
            used = st.decide(c_ge(nb[1] - 1))
            if used is None:
                yield "none", "does not depend on whether there is a number"
            elif used != (r is not None):
                yield "none", "finds no number" if used else "returns a number where there is none"
            elif r:
                if not st.eq0(T.ld(p, r[0], sz, ty) - nb[0]):
                    yield "value", "returns another number"
                d, n = r[1]
                if not st.eq0(n - m.view[1] + nb[1]) or not (st.eq0(d - m.view[0] - nb[1]) or st.eq0(n)):
                    yield "rest", "the rest is not what follows the number"
        return fin
    T.run("reading an integer", "h_parse_i64", nprep, nfin("nopt", "npair", 8, "i64"))
    T.run("reading a number", "h_parse_f32", nprep, nfin("fopt", "fpair", 4, "float"))

    # words
    def wprep(m, eng, st, syms):
        m.view = T.view(eng, st, syms[1], "text")
        m.start(st, *m.view)

    def same_view(st, v, d, n):
        return st.eq0(v[1] - n) and (st.eq0(n) or st.eq0(v[0] - d))

    def kfin(m, p, syms):
        st, (d, n) = p.st, m.view
        if st.ts["phase"] == "lead" and not st.eq0(P(st.ts["P"]) - n) or st.ts["phase"] == "end":
            yield "stops", "does not look at the blanks at the start"
        elif not same_view(st, T.holds(p, syms[0], "view"), d + st.ts["P"], n - st.ts["P"]):
            yield "result", "the result is not what follows the blanks"
    T.run("skipping blanks", "h_skip", wprep, kfin, WordModel)

    def wfin(m, p, syms):
        st, (d, n) = p.st, m.view
        ph, pos, W = st.ts["phase"], P(st.ts["P"]), st.ts["W"]
        if ph != "end" and not st.eq0(pos - n):
            yield "stops", "stops before the end of the word"
            return
        r = opt_of(p, syms[0], "wopt", "wpair")
        if (r is None) != (ph == "lead"):
            yield "none", "finds no word" if r is None else "finds a word among blanks"
        elif r:
            if not same_view(st, T.holds(p, r[0], "view"), d + W, pos - W):
                yield "word", "returns something else than the word"
            k = n - pos - 1 if ph == "end" else ZERO
            if not same_view(st, r[1], d + pos + 1, k):
                yield "rest", "the rest is not what follows the word"
    Text(ctx, harness("format", [x for x in TXT if "parse_string" not in x], roots="^h_parse_string"), L).run("reading a word", "h_parse_string", wprep, wfin, WordModel)

    # enumerations
    CASES = (("zero", 0), ("five", 5), ("other", 200))

    def eprep(m, eng, st, syms):
        m.view = T.view(eng, st, syms[1], "text")
        m.oo = {"ok_": o["wopt"]["ok_"]}
        for a in ("first", "second"):
            for f in ("data_", "length_"):
                m.oo[("name." if a == "first" else "rest.") + f] = o["wopt"]["value_"] + o["wpair"][a] + o["view"][f]
        d, n = m.view
        nn, rn = P(fresh("wordlen", nn=True)), P(fresh("restlen", nn=True))
        ok = P(fresh("found", nn=True, ub=1))
        st.facts = st.facts + (n - nn, n - rn)
        m.word = dict(ok=ok, name=(P(fresh("word", ptr=True, nn=True)), nn), rest=(P(fresh("rest", ptr=True, nn=True)), rn))

    def efin(m, p, syms):
        st = p.st
        ps = [e for e in p.ev if e[0] == "pstring"]
        if len(ps) != 1 or not (st.eq0(ps[0][1][0] - m.view[0]) and st.eq0(ps[0][1][1] - m.view[1])):
            yield "word", "does not read a word from the text"
            return
        found = st.decide(c_eq(m.word["ok"] - 1))
        if found is None:
            raise AnalysisError("does not look whether there is a word")
        want = None
        for nm, v in CASES if found else ():
            if st.decide(c_eq(m.word["name"][1] - len(nm))) is False:
                continue
            same_ = st.decide(c_eq(P(term("differs", st.norm(m.word["name"][0]), nm))))
            if same_ is None:
                yield "case", "does not compare with the case %s" % nm
                return
            if same_:
                want = v
                break
        r = opt_of(p, syms[0], "eopt", "epair")
        if want is None or r is None:
            if want is not None or r is not None:
                yield "none", "returns a case that was not named" if r else "does not return the case named"
            return
        x = T.ld(p, r[0], 1, "i8")
        if not (st.eq0(x - want) or st.eq0(x - want + 256)):
            yield "value", "returns another case"
        if not same_view(st, r[1], *m.word["rest"]):
            yield "rest", "the rest is not what follows the word"
    T.run("reading a case", "h_parse_enum", eprep, efin)

    def nmprep(m, eng, st, syms):
        pass

    def nmfin(m, p, syms):
        st, x = p.st, P(syms[1])
        want = "Invalid"
        for nm, v in CASES:
            z = st.decide(c_eq(x - v))
            if z is None and v > 127:
                z = st.decide(c_eq(x - v + 256))
            if z is None:
                yield "case", "does not look for the case %s" % nm
                return
            if z:
                want = nm
        t = text(p.eng, st, syms[0])
        if t is None:
            by = []
            for i in range(len(want) + 1):
                v = T.ld(p, P(syms[0]) + i, 1, "i8")
                by.append(chr(int(v.cval()) & 255) if v.is_const() else "?")
            t = "".join(by)[:-1] if by[-1] == "\0" else "".join(by)
        if t != want:
            yield "name", "returns %r instead of %r" % (t, want)
    T.run("naming a case", "h_enum_name", nmprep, nmfin)


def boolean(p, x):
    z = p.st.decide(c_eq(x))
    if z is None:
        raise AnalysisError("cannot tell true and false")
    return z


def setbool(eng, st, v, off):
    st = st.copy()
    b = P(fresh("flag", nn=True, ub=1))
    eng.set_cell(st, split_addr(v)[0], P(off), 1, b)
    return st


def check(ctx):
    ctx.level = "proof"
    ctx.explanation = "Every path of measuring and writing each kind of value, with elements and numbers opaque."
    ctx.assumptions = ["printf formats the same value to the same text each time"]
    mod = harness("format", OPQ)
    L = layouts(SRC)
    R = FR(ctx, mod, L)
    types(R)
    drivers(ctx, mod, L)
    texts(ctx, harness("format", TXT), L)
    ctx.floor("obligations", len(ctx.obs), 60)
