"""Reflection: every table lists the fields the type really has; the walks visit them; traits and lists answer right."""
import re
from build import harness, layouts, syntax_only, VERIF, run, flags, CLANG, BuildError
from flow import Flow, World, explore
from alg import *
from engine import AnalysisError
import os

KINDS = ["void_", "char_", "i8_", "i16_", "i32_", "i64_", "u8_", "u16_", "u32_", "u64_", "f32_", "f64_", "bool_", "array_", "pointer_", "enum_", "record_"]
NAMES = dict(vec="Vec", vecs="Vec", queue="Queue", stack="Stack", heap="Heap", map="Map", map2="Map", slot="Slot", slot2="Slot", string="String", view="String_View",
             slice="Slice", opt="Opt", opt8="Opt", pair="Pair", pair2="Pair", box="Box", rc="Rc", arc="Arc", rcd="Rc_Data", arcd="Arc_Data", ref="Ref", storage="Storage",
             var="Variant", var2="Variant", tuple="Tuple", tuple1="Tuple", named="n", atomic="Atomic", promise="Promise", promisev="Promise", thread="Thread",
             location="Location", palloc="Profile::Alloc", vec2="Vec2", vec3="Vec3", vec4="Vec4", vec2i="Vec2i", vec3i="Vec3i", vec4i="Vec4i", vec2u="Vec2u",
             vec3u="Vec3u", vec4u="Vec4u", vec5="VecN", vec5i="VecNi", vec5u="VecNu", mat4="Mat4", bbox="BBox", quat="Quat")
ENUMS = {"level": ("rpp::Log::Level", "Level", "info"), "priority": ("rpp::Thread::Priority", "Priority", "normal"), "kind": ("rpp::Reflect::Kind", "Kind", "void_")}
SCALARS = {"char": "char_", "signed char": "i8_", "short": "i16_", "int": "i32_", "long long": "i64_", "unsigned char": "u8_", "unsigned short": "u16_",
           "unsigned int": "u32_", "unsigned long": "u64_", "float": "f32_", "double": "f64_", "_Bool": "bool_", "bool": "bool_",
           "u8": "u8_", "u16": "u16_", "u32": "u32_", "u64": "u64_", "i8": "i8_", "i16": "i16_", "i32": "i32_", "i64": "i64_", "f32": "f32_", "f64": "f64_"}


def flat(c):
    """the bytes and words of a constant, in order"""
    if c[0] == "agg":
        out = []
        for x in c[1]:
            out += flat(x)
        return out
    if c[0] == "i":
        return [(int(c[2]) // 8, int(c[1]) & ((1 << int(c[2])) - 1))]
    if c[0] == "str":
        return [(1, b) for b in bytes.fromhex(c[1])]
    if c[0] == "zero":
        return [(1, 0)] * c[1]
    raise AnalysisError("constant %s in a table" % c[0])


def rows(g):
    raw = bytearray()
    for n, v in flat(g["init"]):
        raw += v.to_bytes(n, "little")
    if len(raw) % 56:
        raise AnalysisError("a table of %d bytes" % len(raw))
    w = lambda b: int.from_bytes(b, "little")
    out = []
    for i in range(0, len(raw), 56):
        r = raw[i:i + 56]
        out.append((bytes(r[:32]).split(b"\0")[0].decode(), w(r[32:40]), w(r[40:48]), w(r[48:56])))
    return out


def enumerators(spec):
    """the enumerators each enumeration declares, from the syntax tree"""
    p = os.path.join(VERIF, "harness", "reflect.cpp")
    rc, o = run([CLANG] + flags() + ["-w", "-fsyntax-only", "-Xclang", "-ast-dump", "-Xclang", "-ast-dump-filter=" + spec, "-fno-color-diagnostics", p])
    if rc:
        raise BuildError(o[-2000:])
    best = []
    for chunk in re.split(r"^Dumping ", o, flags=re.M):
        if not re.match(re.escape(spec) + r":\n", chunk) or "EnumDecl" not in chunk.split("\n")[1]:
            continue
        out, nxt = [], 0
        lines = chunk.split("\n")
        for k, l in enumerate(lines):
            m = re.search(r"EnumConstantDecl .*?(?:referenced )?(\w+) '", l)
            if m:
                for l2 in lines[k + 1:k + 4]:
                    if "EnumConstantDecl" in l2:
                        break
                    v = re.search(r"value: Int (-?\d+)", l2)
                    if v:
                        nxt = int(v.group(1))
                        break
                out.append((m.group(1), nxt))
                nxt += 1
        best = max(best, out, key=len)
    return best


def walk(mod, fn, args, sinks):
    """the calls a straight walk makes, in order"""
    A = Alg()
    got = []

    def body(w):
        m = Flow(mod, w)
        seen = []

        def rec(k):
            def f(m, a, i):
                seen.append((k, list(a), m))
                return None
            return f
        m.calls = {s: rec(s) for s in sinks}
        m.run(fn, args(m))
        if m.trap:
            raise AnalysisError("stops at %s" % m.trap)
        got.append([(k, [cstr(m, x) if j == 0 else x for j, x in enumerate(a)]) for k, a, m in seen])
    explore(A, body)
    if len(got) != 1:
        raise AnalysisError("%d ways through a walk" % len(got))
    return got[0]


def cstr(m, p):
    _, o, off = p
    s = b""
    for k in range(33):
        c = m.get(o, off + k, 1)
        if c is None:
            # stored wider
            for w in (2, 4, 8, 16, 32):
                c = m.get(o, (off + k) // w * w, w)
                if isinstance(c, int):
                    c = (c >> 8 * ((off + k) % w)) & 255
                    break
        if not isinstance(c, int):
            raise AnalysisError("a name that is not a constant")
        if c == 0:
            return s.decode()
        s += bytes([c])
    raise AnalysisError("a name without an end")


def check(ctx):
    ctx.level = "proof"
    ctx.explanation = ("each reflection table is read as a constant and compared with the record layouts and enumerators the compiler reports; the walks are followed call by call; "
                       "traits, lists and concepts are decided at compile time over a matrix of types")
    ctx.assumptions = ["the compiler's record layouts and type traits are right"]
    src = os.path.join(VERIF, "harness", "reflect.cpp")
    mod = harness("reflect", default_opaque=False)
    lay = layouts(src)
    n = [0]
    for nm, want in NAMES.items():
        label = "fields(%s)" % want if nm.rstrip("0123456789s") == nm else "fields(%s, %s)" % (want, nm)
        try:
            g = mod.globals.get("tab_" + nm)
            L = lay.get("L_" + nm)
            if g is None or L is None:
                raise AnalysisError("no table or no layout")
            table(ctx, nm, label, want, rows(g), L, n)
        except AnalysisError as e:
            ctx.undecided(label, str(e))
            continue
        T = rows(g)[1:]
        for h, const in (("h_it_", ""), ("h_cit_", "const ")):
            name = "walk(%s%s)" % (const, nm)
            try:
                fn = mod.fns.get(h + nm)
                if fn is None:
                    raise AnalysisError("missing")
                got = walk(mod, fn, lambda m: [m.obj("rec")], ["sink"])
                n[0] += 1
                exp = [("sink", [r[0], ("p", "rec", r[1]), r[2]]) for r in T]
                if got != exp:
                    ctx.bad(name, "walk-" + nm, "iterate_record visits %s, but the fields are %s" % (brief(got), brief(exp)))
                else:
                    ctx.ok(name, "%d fields, each once, in order, at its offset" % len(T))
            except AnalysisError as e:
                ctx.undecided(name, str(e))
    for nm, (full, short, dflt) in ENUMS.items():
        name = "cases(%s)" % short
        try:
            T = rows(mod.globals["tab_" + nm])
            decl = enumerators(full)
            if not decl:
                raise AnalysisError("no enumerators found for %s" % full)
            bad = []
            n[0] += 1
            if T[0][0] != short or T[0][3] != KINDS.index("enum_"):
                bad.append("it calls itself %s of kind %s" % (T[0][0], T[0][3]))
            if sorted((r[0], r[1]) for r in T[1:]) != sorted(decl):
                bad.append("the table has %s, the enumeration %s" % ([(r[0], r[1]) for r in T[1:]], decl))
            got = walk(mod, mod.fns["h_en_" + nm], lambda m: [], ["case_sink"])
            exp = [("case_sink", [r[0], r[1]]) for r in T[1:]]
            if got != exp:
                bad.append("iterate_enum visits %s" % (got,))
            d = walk_ret(mod, mod.fns["h_def_" + nm])
            if d != dict(decl).get(dflt):
                bad.append("the default is %s, not %s" % (d, dflt))
            if bad:
                ctx.bad(name, "cases-" + nm, "; ".join(bad))
            else:
                ctx.ok(name, "%d enumerators" % len(decl))
        except AnalysisError as e:
            ctx.undecided(name, str(e))
    witnesses(ctx, n)
    ctx.count("tables, walks and compile-time facts", n[0])


def brief(x):
    return ", ".join("%s@%s+%s" % (a[0], a[1][2] if isinstance(a[1], tuple) else a[1], a[2] if len(a) > 2 else "") for _, a in x)[:300]


def walk_ret(mod, fn):
    out = []

    def body(w):
        out.append(Flow(mod, w).run(fn, []))
    explore(Alg(), body)
    return out[0]


def table(ctx, nm, label, want, T, L, n):
    n[0] += 1
    bad = []
    head, T = T[0], T[1:]
    if head[0] != want:
        bad.append("its name is %s" % head[0])
    if head[3] != KINDS.index("record_"):
        bad.append("its kind is %s" % head[3])
    if head[1] != len(T):
        bad.append("List_Length is %d for %d fields" % (head[1], len(T)))
    # what the layout says: members of the record itself (through bases and anonymous parts)
    members, leaves = {}, []
    paths = [p for p in L if p != "v" and not p.startswith("#")]
    for p in paths:
        parts = p.split(".")[1:]
        named = [q for q in parts if q != "?"]
        if len(named) == 1 and parts[-1] != "?":
            members.setdefault(named[0], L[p])
        if not any(q.startswith(p + ".") for q in paths) and parts[-1] != "?" and "Tuple<>" not in L[p][1]:
            leaves.append((p, L[p][0]))
    last = -1
    for f, off, size, kind in T:
        if f not in members:
            bad.append("there is no member %s" % f)
            continue
        o, ty = members[f]
        if o != off:
            bad.append("%s is at %d, the table says %d" % (f, o, off))
        if off < last:
            bad.append("%s comes after a field that lies behind it" % f)
        last = off
        ty = re.sub(r"^(const|volatile|struct|union|class|enum) ", "", ty.strip()).strip()
        k = KINDS[kind] if kind < len(KINDS) else None
        if ty in SCALARS and k not in (SCALARS[ty], None) or ty.endswith("*") and k not in ("pointer_", None) or ty.endswith("]") and k not in ("array_", None):
            bad.append("%s of type %s is of kind %s" % (f, ty, k))
        if size > head[2] - off:
            bad.append("%s reaches past the end" % f)
    if len({r[0] for r in T}) != len(T):
        bad.append("a field is listed twice")
    for p, o in leaves:
        if not any(r[1] <= o < r[1] + r[2] for r in T):
            bad.append("no entry covers %s at %d" % (p[2:], o))
    if bad:
        ctx.bad(label, "fields-" + nm, "the table of %s: %s" % (want, "; ".join(bad)))
    else:
        ctx.ok(label, "%d fields of %d members" % (len(T), len(members)))


# ---- compile-time facts
BASES = ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64", "bool", "char", "void", "E", "Triv", "Nocopy", "Nothing", "Dtor", "Abs", "Der"]
INTS = {"u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64"}


def facts():
    """(condition, key): what must hold of each type, from what the type is"""
    out = []

    def say(cond, val, key):
        out.append(("%s == %s" % (cond, "true" if val else "false"), key))
    for b in BASES:
        forms = [(b, set()), ("const " + b, {"const"}), ("volatile " + b, {"volatile"}), (b + "*", {"ptr"}), ("const " + b + "*", {"ptr"})]
        if b != "void":
            forms += [(b + "&", {"lref"}), (b + "&&", {"rref"}), ("const " + b + "&", {"lref"}), (b + "*&", {"lref"})]
            if b != "Abs":
                forms += [(b + "[3]", {"arr"})]
        for t, q in forms:
            plain = t == b
            say("Int<%s>" % t, plain and b in INTS, "Int")
            say("Unsigned_Int<%s>" % t, plain and b in INTS and b[0] == "u", "Unsigned_Int")
            say("Signed_Int<%s>" % t, plain and b in INTS and b[0] == "i", "Signed_Int")
            say("Float<%s>" % t, plain and b in ("f32", "f64"), "Float")
            say("Const<%s>" % t, "const" in q, "Const")
            say("Volatile<%s>" % t, "volatile" in q, "Volatile")
            say("Pointer<%s>" % t, "ptr" in q, "Pointer")
            say("Reference<%s>" % t, bool(q & {"lref", "rref"}), "Reference")
            say("Lvalue_Reference<%s>" % t, "lref" in q, "Lvalue_Reference")
            say("Rvalue_Reference<%s>" % t, "rref" in q, "Rvalue_Reference")
            say("Not_Void<%s>" % t, not (b == "void" and not q & {"ptr"}), "Not_Void")
            if t not in ("void", "const void", "volatile void"):
                for c, x in (("Constructable<%s, int>", "__is_constructible(%s, int)"), ("Default_Constructable<%s>", "__is_constructible(%s)"),
                             ("Move_Constructable<%s>", "__is_constructible(%s, __add_rvalue_reference(%s))"),
                             ("Copy_Constructable<%s>", "__is_constructible(%s, const __remove_reference_t(%s)&)" if not q & {"lref", "rref"} else None),
                             ("Trivially_Copyable<%s>", "__is_trivially_copyable(%s)"), ("Trivially_Destructible<%s>", "__is_trivially_destructible(%s)"),
                             ("Must_Destruct<%s>", "!__is_trivially_destructible(%s)"), ("Abstract<%s>", "__is_abstract(%s)"), ("Not_Abstract<%s>", "!__is_abstract(%s)"),
                             ("Trivially_Movable<%s>", "__is_trivially_constructible(%s, __add_rvalue_reference(%s))"),
                             ("Trivial<%s>", "(__is_trivially_constructible(%s) && __is_trivially_copyable(%s))")):
                    if x:
                        out.append(("%s == %s" % (c % t, x.replace("%s", t)), c.split("<")[0]))
            dec = b + ("*" if "ptr" in q or t.endswith("*&") else "[3]" if "arr" in q else "")
            if t == "const " + b + "*":
                dec = t
            out.append(("__is_same(Decay<%s>, %s)" % (t, dec), "Decay"))
            out.append(("__is_same(Without_Const<%s>, __remove_const(%s))" % (t, t), "Without_Const"))
            out.append(("__is_same(Without_Volatile<%s>, __remove_volatile(%s))" % (t, t), "Without_Volatile"))
        for c in BASES:
            say("Same<%s, %s>" % (b, c), b == c, "Same")
            say("Same<%s*, %s*>" % (b, c), b == c, "Same")
        say("Same<%s, const %s>" % (b, b), False, "Same")
    pool = ["u8", "i32", "f64", "Triv"]
    import itertools
    for k in range(0, 4):
        for ts in itertools.product(pool[:3], repeat=k):
            a = ", ".join(ts)
            say("All_Same<%s>" % a, len(set(ts)) <= 1, "All_Same")
            say("Distinct<%s>" % a, len(set(ts)) == len(ts), "Distinct")
            out.append(("Reflect::List_Length<List<%s>> == %d" % (a, k), "List_Length"))
            out.append(("__is_same(Reflect::Reverse<List<%s>>, List<%s>)" % (a, ", ".join(reversed(ts))), "Reverse"))
            out.append(("__is_same(Reflect::Enumerate<%s>, List<%s>)" % (a, ", ".join("Constant<u64, %d>" % j for j in range(k))), "Enumerate"))
            say("Type_List<List<%s>>" % a, True, "Type_List")
            say("Reflect::All<P_Int, List<%s>>" % a, all(t in INTS for t in ts), "All")
            for x in pool:
                ax = ", ".join((x,) + ts)
                say("All_Are<%s>" % ax, all(t == x for t in ts), "All_Are")
                say("One_Is<%s>" % ax, x in ts, "One_Is")
                if x in ts:
                    out.append(("Index_Of<%s> == %d" % (ax, ts.index(x)), "Index_Of"))
                say("requires { Index_Of<%s>; }" % ax if 0 else "Has_Index<%s>" % ax, x in ts, "Index_Of")
            for j in range(k):
                out.append(("__is_same(Choose<%s>, %s)" % (", ".join((str(j),) + ts), ts[j]), "Choose"))
            say("Has_Choice<%s>" % ", ".join((str(k),) + ts), False, "Choose")
            for j in range(5):
                say("Length<%s>" % ", ".join((str(j),) + ts), j == k, "Length")
            out.append(("__is_same(Index_Sequence_For<%s>, Index_Sequence<%s>)" % (a, ", ".join(map(str, range(k)))), "Index_Sequence"))
    say("Type_List<int>", False, "Type_List")
    out += [("__is_same(If<true, u8, i32>, u8)", "If"), ("__is_same(If<false, u8, i32>, i32)", "If"), ("__is_same(Underlying<E>, u16)", "Underlying"),
            ("Constant<u64, 5>::value == 5", "Constant"), ("__is_same(With_Lvalue_Ref<u8>, u8&)", "With_Ref"), ("__is_same(With_Rvalue_Ref<u8>, u8&&)", "With_Ref")]
    for f, args, ok, r in (("Fn", "u8", True, "i32"), ("Fn", "Triv", False, None), ("Fn", "", False, None), ("Fn2", "u8&", True, "u8"), ("Fn2", "u8", False, None),
                           ("Fn2", "const u8&", False, None), ("Fn3", "u8", True, "void"), ("Fn3", "u8, u8", False, None)):
        a = f + (", " + args if args else "")
        say("Invocable<%s>" % a, ok, "Invocable")
        if ok:
            out.append(("__is_same(Invoke_Result<%s>, %s)" % (a, r), "Invoke_Result"))
    say("Derived_From<Abs, Der>", True, "Derived_From")
    say("Derived_From<Der, Abs>", False, "Derived_From")
    say("Base_Of<Der, Abs>", True, "Base_Of")
    say("Base_Of<Abs, Der>", False, "Base_Of")
    for t, eq, lt, cl in (("i32", 1, 1, 0), ("Triv", 0, 0, 0), ("Eq", 1, 0, 0), ("Lt", 0, 1, 0), ("Cl", 0, 0, 1), ("Badcl", 0, 0, 0), ("Badeq", 0, 0, 0), ("Vec<i32>", 0, 0, 1), ("String<>", 0, 0, 1), ("String_View", 1, 1, 1)):
        say("Equality<%s>" % t, eq, "Equality") if t not in ("String<>", "Vec<i32>", "String_View") else None
        say("Ordered<%s>" % t, lt, "Ordered") if t not in ("String<>", "Vec<i32>", "String_View") else None
        say("Clone<%s>" % t, cl, "Clone")
    # names compare as text
    lits = ["", "a", "b", "ab", "aa", "ba", "abcdefghijklmnopqrstuvwxyz01234", "abcdefghijklmnopqrstuvwxyz01235", "bbcdefghijklmnopqrstuvwxyz01234"]
    for x in lits:
        for y in lits:
            out.append(("(Literal{\"%s\"} == Literal{\"%s\"}) == %s" % (x, y, "true" if x == y else "false"), "Literal"))
        out.append(("same_text(Literal{\"%s\"}, \"%s\")" % (x, x), "Literal"))
    # kinds and names of the fundamental types
    for t, nm in (("void", "void"), ("char", "char"), ("bool", "bool")) + tuple((t, t) for t in ("i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64")):
        for q in ("%s", "const %s", "volatile %s") + (() if t == "void" else ("%s&", "%s&&", "const %s&")):
            out.append(("Reflect::Refl<%s>::kind == Reflect::Kind::%s_" % (q % t, nm), "kind"))
            out.append(("same_text(Reflect::Refl<%s>::name, \"%s\")" % (q % t, nm), "name"))
        for q in ("%s*", "const %s*"):
            out.append(("Reflect::Refl<%s>::kind == Reflect::Kind::pointer_" % (q % t), "kind"))
            out.append(("__is_same(Reflect::Refl<%s>::underlying, %s)" % (q % t, t), "underlying"))
        if t != "void":
            for q in ("%s[7]", "const %s[7]"):
                out.append(("Reflect::Refl<%s>::kind == Reflect::Kind::array_ && Reflect::Refl<%s>::length == 7" % (q % t, q % t), "kind"))
                out.append(("__is_same(Reflect::Refl<%s>::underlying, %s)" % (q % t, t), "underlying"))
    out.append(("Reflect::Refl<decltype(null)>::kind == Reflect::Kind::pointer_", "kind"))
    # what is a record, what is an enumeration
    for t, k in (("Pair<u8, u64>", "r"), ("Vec<i32>", "r"), ("Vec3", "r"), ("Log::Location", "r"), ("Tuple<u8>", "r"), ("Tuple<>", "r"), ("Log::Level", "e"), ("Thread::Priority", "e"),
                 ("Reflect::Kind", "e"), ("i32", ""), ("void", ""), ("i32*", ""), ("i32[2]", ""), ("Triv", "-"), ("E", "-")):
        say("Reflectable<%s>" % t, k != "-", "Reflectable")
        say("Reflect::Record<%s>" % t, k == "r", "Record")
        say("Reflect::Enum<%s>" % t, k == "e", "Enum")
    return out


PRE = '''#include <rpp/base.h>
#include <rpp/tuple.h>
#include <rpp/thread.h>
#include <rpp/vmath.h>
using namespace rpp;
using rpp::List;
enum class E : u16 { a, b };
struct Triv { int x; };
struct Nocopy { Nocopy(Nocopy&&) noexcept; };
struct Nothing { Nothing(Nothing&&) = delete; };
struct Dtor { ~Dtor(); Dtor(); Dtor(const Dtor&); };
struct Abs { virtual void f() = 0; };
struct Der : Abs { void f() override; };
struct Fn { i32 operator()(i32); };
struct Fn2 { u8 operator()(u8&); };
struct Fn3 { void operator()(u8); };
struct Eq { bool operator==(const Eq&) const; };
struct Lt { bool operator<(const Lt&) const; };
struct Cl { Cl clone() const; };
struct Badcl { Badcl clone(); };
struct Badeq { int operator==(const Badeq&) const; };
struct P_Int { template<typename T> constexpr static bool value = Int<T>; };
template<typename T, typename... Ts> concept Has_Index = requires { Index_Of<T, Ts...>; };
template<u64 I, typename... Ts> concept Has_Choice = requires { typename Choose<I, Ts...>; };
constexpr bool same_text(Literal l, const char* s) {
    for(u64 i = 0; i < 32; i++) {
        if(l.c_string[i] != *s) return false;
        if(*s) s++;
    }
    return true;
}
'''


def witnesses(ctx, n):
    lines = PRE.split("\n")
    own, groups = {}, {}
    for cond, key in facts():
        lines.append("static_assert(%s);" % cond)
        own[len(lines)] = (cond, key)
        groups.setdefault(key, []).append(cond)
    rc, out = syntax_only("\n".join(lines), ["-ferror-limit=0", "-fno-color-diagnostics"])
    hit = {}
    for m in re.finditer(r"w_\w+\.cpp:(\d+):\d+: (?:error|note)", out):
        if int(m.group(1)) in own:
            c, k = own[int(m.group(1))]
            hit.setdefault(k, []).append(c)
    if rc and not hit:
        return ctx.fail("the compile-time facts do not compile:\n" + out[:1500])
    for k, cs in groups.items():
        n[0] += len(cs)
        if k in hit:
            ctx.bad("facts(%s)" % k, "facts-" + k, "not so: %s%s" % ("; ".join(dict.fromkeys(hit[k][:6])), " and %d more" % (len(hit[k]) - 6) if len(hit[k]) > 6 else ""))
        else:
            ctx.ok("facts(%s)" % k, "%d facts" % len(cs))
