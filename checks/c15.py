"""Ownership in the type system: programs that would copy an owner, write through a constant view or mix handle kinds do not
compile; every operation the interface offers compiles for every kind of element and for an allocator of one's own.

Every witness is a line of a translation unit that is type-checked against the headers.  A rejected program must be
rejected at its own line, and has a twin that differs only in the offending part and must be accepted.
"""
from build import *

PRE = '''#include <rpp/base.h>
#include <rpp/rc.h>
#include <rpp/stack.h>
#include <rpp/heap.h>
#include <rpp/tuple.h>
#include <rpp/variant.h>
#include <rpp/thread.h>
#include <rpp/pool.h>
#include <rpp/async.h>
#include <rpp/net.h>
#include <rpp/function.h>
#include <rpp/range_allocator.h>
#include <rpp/files.h>
#include <rpp/rng.h>
#include <rpp/vmath.h>
using namespace rpp;
struct My {
    constexpr static Literal name = "My";
    static void* alloc(u64 n) noexcept;
    static void free(void* p) noexcept;
};
struct Cpy { i32 x = 0; bool operator<(const Cpy& o) const { return x < o.x; } bool operator==(const Cpy& o) const { return x == o.x; } };
struct Mov {
    Mov() = default; explicit Mov(i32 v) : x(v) {} Mov(const Mov&) = delete; Mov(Mov&& m) : x(m.x) {} Mov& operator=(const Mov&) = delete; Mov& operator=(Mov&& m) { x = m.x; return *this; } ~Mov() {}
    i32 x = 0; bool operator<(const Mov& o) const { return x < o.x; } bool operator==(const Mov& o) const { return x == o.x; }
};
struct Cln : Mov { Cln() = default; Cln(Cln&&) = default; Cln& operator=(Cln&&) = default; ~Cln() {} Cln clone() const { return Cln{}; } };
struct Plain { i32 x; };
struct Base { virtual ~Base() {} virtual int f() { return 0; } }; struct Derived : Base { int f() override { return 1; } };
using B = Box<i32>;
template<typename T> T& make();
template<typename... T> void use(T&&...);
template<typename T, typename U> inline constexpr bool same = rpp::Same<T, U>;
#define COPYC(T) __is_constructible(T, const T&)
#define COPYA(T) __is_assignable(T&, const T&)
#define MOVEC(T) __is_constructible(T, T&&)
#define MOVEA(T) __is_assignable(T&, T&&)
'''

# type: copy-construct, copy-assign, move-construct, move-assign, clone
TRAITS = '''
Vec<i32> 00111|Vec<B> 00111|Vec<Mov> 00110|Vec<i32, My> 00111|Stack<i32> 00111|Stack<B> 00111|Stack<Mov> 00110|Queue<i32> 00111|Queue<B> 00111|Queue<Mov> 00110
Heap<i32> 00111|Heap<Mov> 00110|Heap<Cln> 00111|Map<i32, i32> 00111|Map<i32, B> 00111|Map<i32, Mov> 00110|Map<String<>, i32> 00111|String<> 00111|String<My> 00111|String_View 11111
Box<i32> 00111|Box<Mov> 00110|Box<B> 00111|Box<i32, My> 00111|Rc<i32> 00110|Rc<B> 00110|Arc<i32> 00110|Arc<B> 00110|Opt<i32> 11111|Opt<B> 00111|Opt<Mov> 00110
Pair<i32, i32> 11111|Pair<i32, B> 00111|Pair<B, i32> 00111|Pair<Mov, i32> 00110|Tuple<i32, i32> 11111|Tuple<i32, B> 00111|Tuple<B, i32> 00111|Tuple<i32, Mov> 00110
Variant<i32, f32> 00111|Variant<i32, B> 00111|Variant<i32, Mov> 00110|Array<i32, 2> 11111|Array<B, 2> 00111|Array<Mov, 2> 00110|Storage<i32> 11110|Storage<B> 00000
Ref<i32> 11110|Slice<i32> 11111|Slice<const i32> 11111|Slice<B> 11111|Function<void()> 00110|Function<i32(i32)> 00110
Thread::Mutex 00000|Thread::Cond 00000|Thread::Flag 00000|Thread::Lock 00110|Thread::Thread<> 00110|Thread::Future<i32> 00110|Thread::Future<void> 00110|Thread::Promise<i32> 00000|Thread::Promise<void> 00000
Async::Pool<> 00000|Async::Task<i32> 00110|Async::Task<void> 00110|Async::Event 00110|Range_Allocator<> 00110|Free_List<i32, Mdefault> 00110|Net::Udp 00110|Net::Address 11110
'''

# (rejected, accepted twin) with a declaration in front of both
PAIRS = [
    ("copying a Vec", "Vec<i32> a;", "Vec<i32> b = a;", "Vec<i32> b = rpp::move(a);"),
    ("passing a Vec by value", "Vec<i32> a; auto f = [](Vec<i32>) {};", "f(a);", "f(a.clone());"),
    ("assigning a Vec", "Vec<i32> a, b;", "b = a;", "b = rpp::move(a);"),
    ("copying a String", "String<> a;", "String<> b = a;", "String<> b = a.clone();"),
    ("copying a Map", "Map<i32, i32> a;", "Map<i32, i32> b = a;", "Map<i32, i32> b = a.clone();"),
    ("copying a Box", "Box<i32> a{1};", "Box<i32> b = a;", "Box<i32> b = a.clone();"),
    ("copying an Rc implicitly", "Rc<i32> a{1};", "Rc<i32> b = a;", "Rc<i32> b = a.dup();"),
    ("copying an Arc implicitly", "Arc<i32> a{1};", "Arc<i32> b = a;", "Arc<i32> b = a.dup();"),
    ("copying a Function", "Function<void()> a{[]() {}};", "Function<void()> b = a;", "Function<void()> b = rpp::move(a);"),
    ("copying a task", "auto f = [](Async::Task<i32>& a) {", "Async::Task<i32> b = a; };", "Async::Task<i32> b = rpp::move(a); };"),
    ("copying a thread", "auto f = [](Thread::Thread<>& a) {", "Thread::Thread<> b = a; };", "Thread::Thread<> b = rpp::move(a); };"),
    ("copying a lock", "Thread::Mutex m; Thread::Lock a{m};", "Thread::Lock b = a;", "Thread::Lock b = rpp::move(a);"),
    ("copying a socket", "auto f = [](Net::Udp& a) {", "Net::Udp b = a; };", "Net::Udp b = rpp::move(a); };"),
    ("copying an event", "auto f = [](Async::Event& a) {", "Async::Event b = a; };", "Async::Event b = rpp::move(a); };"),
    ("moving from a constant Vec", "const Vec<i32> a;", "Vec<i32> b = rpp::move(a);", "Vec<i32> b = a.clone();"),
    ("a Vec of another allocator", "Vec<i32> a;", "Vec<i32, My> b = rpp::move(a);", "Vec<i32> b = rpp::move(a);"),
    ("a Box of another allocator", "Box<i32> a{1};", "Box<i32, My> b = rpp::move(a);", "Box<i32> b = rpp::move(a);"),
    ("an Rc of another type", "Rc<i32> a{1};", "Rc<u32> b = a.dup();", "Rc<i32> b = a.dup();"),
    ("an Rc becoming an Arc", "Rc<i32> a{1};", "Arc<i32> b = a.dup();", "Rc<i32> b = a.dup();"),
    ("a Box of an unrelated type", "Box<Plain> a{1};", "Box<Base> b{rpp::move(a)};", "Box<Plain> b{rpp::move(a)};"),
    ("pushing a copy of a move-only element", "Vec<Mov> v; Mov m;", "v.push(m);", "v.push(rpp::move(m));"),
    ("queueing a copy of a move-only element", "Queue<Mov> v; Mov m;", "v.push(m);", "v.push(rpp::move(m));"),
    ("stacking a copy of a move-only element", "Stack<Mov> v; Mov m;", "v.push(m);", "v.push(rpp::move(m));"),
    ("inserting a copy of a move-only value", "Map<i32, Mov> v; Mov m;", "v.insert(1, m);", "v.insert(1, rpp::move(m));"),
    ("a Pair of a copy", "Mov m;", "Pair<i32, Mov> p{1, m};", "Pair<i32, Mov> p{1, rpp::move(m)};"),
    ("cloning what cannot be cloned", "Vec<Mov> a; Vec<Cln> b;", "auto c = a.clone();", "auto c = b.clone();"),
    ("cloning an Opt of what cannot be cloned", "Opt<Mov> a; Opt<Cln> b;", "auto c = a.clone();", "auto c = b.clone();"),
    ("cloning a Box of what cannot be cloned", "Box<Mov> a; Box<Cln> b;", "auto c = a.clone();", "auto c = b.clone();"),
    ("writing through a constant Vec", "const Vec<i32> a; Vec<i32> b;", "a[0] = 1;", "b[0] = 1;"),
    ("writing through front of a constant Vec", "const Vec<i32> a; Vec<i32> b;", "a.front() = 1;", "b.front() = 1;"),
    ("writing through back of a constant Vec", "const Vec<i32> a; Vec<i32> b;", "a.back() = 1;", "b.back() = 1;"),
    ("writing while iterating a constant Vec", "const Vec<i32> a; Vec<i32> b;", "for(auto& x : a) x = 1;", "for(auto& x : b) x = 1;"),
    ("a mutable slice of a constant Vec", "const Vec<i32> a; Vec<i32> b;", "Slice<i32> s = a.slice();", "Slice<i32> s = b.slice();"),
    ("pushing to a constant Vec", "const Vec<i32> a; Vec<i32> b;", "a.push(1);", "b.push(1);"),
    ("writing through a constant Queue", "const Queue<i32> a; Queue<i32> b;", "a[0] = 1;", "b[0] = 1;"),
    ("writing through front of a constant Queue", "const Queue<i32> a; Queue<i32> b;", "a.front() = 1;", "b.front() = 1;"),
    ("writing through back of a constant Queue", "const Queue<i32> a; Queue<i32> b;", "a.back() = 1;", "b.back() = 1;"),
    ("writing while iterating a constant Queue", "const Queue<i32> a; Queue<i32> b;", "for(auto& x : a) x = 1;", "for(auto& x : b) x = 1;"),
    ("writing through the top of a constant Stack", "const Stack<i32> a; Stack<i32> b;", "a.top() = 1;", "b.top() = 1;"),
    ("writing to the top of a constant Heap", "const Heap<i32> a; Heap<i32> b;", "a.top() = 1;", "b.top() = 1;"),
    ("reordering a Heap by iteration", "const Heap<i32> a; Heap<i32> b;", "for(auto& x : a) x = 1;", "for(auto& x : b) use(x);"),
    ("writing through get of a constant Map", "const Map<i32, i32> a; Map<i32, i32> b;", "a.get(1) = 2;", "b.get(1) = 2;"),
    ("writing through try_get of a constant Map", "const Map<i32, i32> a; Map<i32, i32> b;", "**a.try_get(1) = 2;", "**b.try_get(1) = 2;"),
    ("writing while iterating a constant Map", "const Map<i32, i32> a; Map<i32, i32> b;", "for(auto& [k, v] : a) v = 1;", "for(auto& [k, v] : b) v = 1;"),
    ("changing a key while iterating", "Map<i32, i32> b;", "for(auto& kv : b) kv.first = 1;", "for(auto& kv : b) kv.second = 1;"),
    ("writing through a constant Array", "const Array<i32, 2> a; Array<i32, 2> b;", "a[0] = 1;", "b[0] = 1;"),
    ("writing through a constant Opt", "const Opt<i32> a{1}; Opt<i32> b{1};", "*a = 1;", "*b = 1;"),
    ("writing through a constant Box", "const Box<i32> a{1}; Box<i32> b{1};", "*a = 1;", "*b = 1;"),
    ("writing through a view", "String<> s; auto v = s.view();", "v[0] = 'a';", "s[0] = 'a';"),
    ("writing through a slice of constants", "Slice<const i32> a; Slice<i32> b;", "a[0] = 1;", "b[0] = 1;"),
    ("writing through a constant Rc", "const Rc<i32> a{1}; Rc<i32> b{1};", "*a = 1;", "*b = 1;"),
    ("writing through a constant Arc", "const Arc<i32> a{1}; Arc<i32> b{1};", "*a = 1;", "*b = 1;"),
    ("writing through the arrow of a constant Rc", "const Rc<Plain> a; Rc<Plain> b;", "a->x = 1;", "b->x = 1;"),
    ("writing through the arrow of a constant Arc", "const Arc<Plain> a; Arc<Plain> b;", "a->x = 1;", "b->x = 1;"),
    ("writing through the arrow of a constant Box", "const Box<Plain> a; Box<Plain> b;", "a->x = 1;", "b->x = 1;"),
    ("writing through the arrow of a constant Opt", "const Opt<Plain> a{Plain{1}}; Opt<Plain> b;", "a->x = 1;", "b->x = 1;"),
    ("writing through the arrow of a reference to a constant", "Plain y; Ref<const Plain> a{y}; Ref<Plain> b{y};", "a->x = 1;", "b->x = 1;"),
    ("writing through the data of a constant Vec", "const Vec<i32> a; Vec<i32> b;", "*a.data() = 1;", "*b.data() = 1;"),
    ("writing through the data of a constant Array", "const Array<i32, 2> a; Array<i32, 2> b;", "*a.data() = 1;", "*b.data() = 1;"),
    ("writing while iterating a constant Array", "const Array<i32, 2> a; Array<i32, 2> b;", "for(auto& x : a) x = 1;", "for(auto& x : b) x = 1;"),
    ("a mutable slice of a constant Array", "const Array<i32, 2> a; Array<i32, 2> b;", "Slice<i32> s = a.slice();", "Slice<i32> s = b.slice();"),
    ("writing while iterating a constant Stack", "const Stack<i32> a; Stack<i32> b;", "for(auto& x : a) x = 1;", "for(auto& x : b) x = 1;"),
    ("writing to a byte of a constant String", "const String<> a; String<> b;", "a[0] = 'x';", "b[0] = 'x';"),
    ("writing while iterating a constant String", "const String<> a; String<> b;", "for(u8& x : a) x = 1;", "for(u8& x : b) x = 1;"),
    ("writing while iterating a view", "String_View a; String<> b;", "for(u8& x : a) x = 1;", "for(u8& x : b) x = 1;"),
    ("writing to a constant Tuple", "const Tuple<i32, i32> a{1, 2}; Tuple<i32, i32> b{1, 2};", "a.get<0>() = 1;", "b.get<0>() = 1;"),
    ("writing to a constant Pair", "const Pair<i32, i32> a{1, 2}; Pair<i32, i32> b{1, 2};", "a.first = 1;", "b.first = 1;"),
    ("writing to what a constant Variant holds", "const Variant<i32, B> a{1}; Variant<i32, B> b{1};", "a.match(Overload{[](i32& x) { x = 2; }, [](const B&) {}});", "b.match(Overload{[](i32& x) { x = 2; }, [](const B&) {}});"),
    ("changing a key through the arrow of an iterator", "Map<i32, i32> b;", "b.begin()->first = 1;", "b.begin()->second = 1;"),
    ("writing to constant uninitialised storage", "const Storage<i32> a{}; Storage<i32> b;", "*a = 1;", "*b = 1;"),
    ("clearing a constant Vec", "const Vec<i32> a; Vec<i32> b;", "a.clear();", "b.clear();"),
    ("clearing a constant Map", "const Map<i32, i32> a; Map<i32, i32> b;", "a.clear();", "b.clear();"),
    ("erasing from a constant Map", "const Map<i32, i32> a; Map<i32, i32> b;", "a.erase(1);", "b.erase(1);"),
    ("inserting into a constant Map", "const Map<i32, i32> a; Map<i32, i32> b;", "a.insert(1, 1);", "b.insert(1, 1);"),
    ("get_or_insert on a constant Map", "const Map<i32, i32> a; Map<i32, i32> b;", "(void)a.get_or_insert(1);", "(void)b.get_or_insert(1);"),
    ("popping a constant Queue", "const Queue<i32> a; Queue<i32> b;", "a.pop();", "b.pop();"),
    ("popping a constant Heap", "const Heap<i32> a; Heap<i32> b;", "a.pop();", "b.pop();"),
    ("clearing a constant Opt", "const Opt<i32> a{1}; Opt<i32> b;", "a.clear();", "b.clear();"),
    ("copying a Queue", "Queue<i32> a;", "Queue<i32> b = a;", "Queue<i32> b = a.clone();"),
    ("copying a Heap", "Heap<i32> a;", "Heap<i32> b = a;", "Heap<i32> b = a.clone();"),
    ("copying an Opt of an owner", "Opt<B> a;", "Opt<B> b = a;", "Opt<B> b = a.clone();"),
    ("copying a Pair of an owner", "Pair<i32, B> a{1, B{1}};", "Pair<i32, B> b = a;", "Pair<i32, B> b = a.clone();"),
    ("copying a range allocator", "Range_Allocator<> a{64};", "Range_Allocator<> b = a;", "Range_Allocator<> b = rpp::move(a);"),
    ("a mutable reference to a constant", "const i32 a = 1; i32 b = 1;", "Ref<i32> r{a};", "Ref<i32> r{b};"),
    ("writing through a reference to a constant", "const i32 a = 1; i32 b = 1; Ref<const i32> p{a}; Ref<i32> q{b};", "*p = 1;", "*q = 1;"),
    ("a mutable string view of text", "const String<> a; String<> b;", "u8* p = a.data();", "u8* p = b.data();"),
    ("a Vec from a number", "", "Vec<i32> v = 5;", "Vec<i32> v{5};"),
    ("an Opt taken as its value", "Opt<i32> a;", "i32 x = a;", "i32 x = *a;"),
    ("an Opt taken as truth", "Opt<i32> a;", "bool x = a;", "bool x = a.ok();"),
    ("a Box taken as a pointer", "Box<i32> a{1};", "i32* x = a;", "i32* x = &*a;"),
    ("a Ref to a temporary number", "i32 a = 5;", "Ref<i32> r{5};", "Ref<i32> r{a};"),
    ("a Variant of a type it does not hold", "B b{1};", "Variant<i32, f32> v{rpp::move(b)};", "Variant<i32, B> v{rpp::move(b)};"),
    ("a Variant with the same type twice", "", "Variant<i32, i32> v{1};", "Variant<i32, u32> v{1};"),
    ("an empty Variant", "", "Variant<> v;", "Variant<i32> v{1};"),
    ("a match that forgets a case", "Variant<i32, B> v{1};", "v.match(Overload{[](i32) {}});", "v.match(Overload{[](i32) {}, [](B&) {}});"),
    ("a Function from a closure of another signature", "", "Function<i32(i32)> f{[](String_View) { return 1; }};", "Function<i32(i32)> f{[](i32) { return 1; }};"),
    ("a Function from a closure with another result", "", "Function<i32(i32)> f{[](i32) { return String_View{}; }};", "Function<i32(i32)> f{[](i32) { return 1; }};"),
    ("a closure too large for its Function", "", "struct { u64 x[5]; } y{}; Function<u64()> f{[y]() { return y.x[0]; }};", "struct { u64 x[4]; } y{}; Function<u64()> f{[y]() { return y.x[0]; }};"),
    ("a closure that is aligned too strictly", "", "struct alignas(64) S { u64 x; }; S y{}; Function<u64()> f{[y]() { return y.x; }};", "struct alignas(8) S { u64 x; }; S y{}; Function<u64()> f{[y]() { return y.x; }};"),
    ("calling a Function with other arguments", "Function<i32(i32)> f{[](i32) { return 1; }};", "(void)f(String_View{});", "(void)f(1);"),
    ("an Array with too many elements", "", "Array<i32, 2> a{1, 2, 3};", "Array<i32, 2> a{1, 2};"),
    ("an Array with too few elements", "", "Array<i32, 3> a{1, 2};", "Array<i32, 3> a{1, 2, 3};"),
    ("an Array of nothing", "", "Array<i32, 0> a;", "Array<i32, 1> a;"),
    ("a Tuple element that is not there", "Tuple<i32, i32> t{1, 2};", "(void)t.get<2>();", "(void)t.get<1>();"),
    ("a key that cannot be hashed", "struct K { bool operator==(const K&) const { return true; } };", "Map<K, i32> m;", "Map<u64, i32> m;"),
    ("a key that cannot be compared", "", "Map<Plain, i32> m;", "Map<u64, i32> m;"),
    ("a Heap of what has no order", "", "Heap<Plain> h;", "Heap<i32> h;"),
    ("printing what has no description", "Plain p; i32 q = 0;", "info(\"%\", p);", "info(\"%\", q);"),
    ("formatting what has no description", "Plain p; i32 q = 0;", "(void)format<Mdefault>(\"%\"_v, p);", "(void)format<Mdefault>(\"%\"_v, q);"),
    ("a thread for what cannot be called", "", "(void)Thread::spawn([](i32) {});", "(void)Thread::spawn([]() {});"),
    ("arguments a thread does not take", "", "(void)Thread::spawn([](i32) {}, String_View{}, 2);", "(void)Thread::spawn([](i32) {}, 2);"),
    ("setting a promise to another type", "auto f = [](Thread::Promise<i32>& p) {", "p.fill(String_View{}); };", "p.fill(1); };"),
    ("a task of another result", "", "auto c = [](Async::Pool<>&) -> Async::Task<i32> { co_return String_View{}; };", "auto c = [](Async::Pool<>&) -> Async::Task<i32> { co_return 1; };"),
    ("locking a constant mutex", "const Thread::Mutex a; Thread::Mutex b;", "Thread::Lock l{a};", "Thread::Lock l{b};"),
    ("a container with something that is no allocator", "", "Vec<i32, Plain> v;", "Vec<i32, My> v;"),
    ("a Box of a base from a stranger", "", "Box<Base> b{Box<Plain>{1}};", "Box<Base> b{Box<Derived>{}};"),
    ("a range from another structure", "Range_Allocator<> a; i32 x = 0;", "a.free(&x);", "a.free(*a.allocate(1, 1));"),
    ("adding vectors of different lengths", "Vec3 a; Vec2 b;", "auto c = a + b;", "auto c = a + a;"),
    ("a draw that ignores its state", "const RNG::Stream a; RNG::Stream b;", "(void)a();", "(void)b();"),
]

# everything the interface offers, for elements and allocators of every kind
ELEMS = ["i32", "Cpy", "Mov", "Cln", "B", "String<>", "Pair<i32, B>"]
ALLOCS = ["Mdefault", "My", "Mallocator<\"x\">"]


def offered():
    out = []

    def add(name, code):
        out.append((name, code))
    for a in ALLOCS:
        for t in ELEMS:
            cp = t in ("i32", "Cpy")
            cl = t != "Mov"
            mk = "make<%s>()" % t
            mv = "rpp::move(make<%s>())" % t
            eq = t in ("i32", "Cpy", "Mov", "Cln", "String<>")
            od = t in ("i32", "Cpy", "Mov", "Cln", "String<>")
            key = t in ("i32", "String<>")
            T = "%s, %s" % (t, a)
            add("Vec<%s>" % T, "Vec<%s> v, w{u64{4}}; v.push(%s); v.emplace(%s); v.reserve(9); v.clear(); v = rpp::move(w); v.pop(); (void)v.front(); (void)v.back(); (void)v[0]; (void)v.slice(); (void)v.length(); (void)v.capacity(); (void)v.empty(); (void)v.full(); (void)v.data(); for(auto& x : v) use(x); const auto& c = v; for(auto& x : c) use(x); (void)c.front(); (void)c.back(); (void)c[0]; (void)c.slice(); Vec<%s> z{%s, %s};" % (T, mv, mv, T, mv, mv)
                + (" v.push(%s);" % mk if cp else "") + (" auto d = v.clone(); auto e = v.template clone<My>(); auto f = v.template clone<Mdefault>();" if cl else "") + (" v.resize(4); v.extend(2);" if not t.startswith("Pair") else "")
                + (" Vec<%s> k = Vec<%s>::make(3);" % (T, T) if not t.startswith("Pair") else ""))
            add("Queue<%s>" % T, "Queue<%s> v, w{u64{4}}; v.push(%s); v.emplace(%s); v.reserve(9); v.clear(); v = rpp::move(w); v.pop(); (void)v.front(); (void)v.back(); (void)v[0]; (void)v.length(); (void)v.empty(); (void)v.full(); for(auto& x : v) use(x); const auto& c = v; for(auto& x : c) use(x); (void)c.front(); (void)c.back(); (void)c[0]; Queue<%s> z{%s, %s};" % (T, mv, mv, T, mv, mv)
                + (" v.push(%s);" % mk if cp else "") + (" auto d = v.clone(); auto e = v.template clone<My>(); auto f = v.template clone<Mdefault>();" if cl else ""))
            add("Stack<%s>" % T, "Stack<%s> v, w{u64{4}}; v.push(%s); v.emplace(%s); v.clear(); v = rpp::move(w); v.pop(); (void)v.top(); (void)v.empty(); const auto& c = v; (void)c.top(); for(auto& x : c) use(x); Stack<%s> z{%s, %s};" % (T, mv, mv, T, mv, mv)
                + (" v.push(%s);" % mk if cp else "") + (" auto d = v.clone(); auto e = v.template clone<My>();" if cl else ""))
            if od:
                add("Heap<%s>" % T, "Heap<%s> v, w{u64{4}}; v.push(%s); v.emplace(%s); v.reserve(9); v.clear(); v = rpp::move(w); v.pop(); (void)v.top(); (void)v.length(); (void)v.empty(); (void)v.full(); for(auto& x : v) use(x); const auto& c = v; for(auto& x : c) use(x); Heap<%s> z{%s, %s};" % (T, mv, mv, T, mv, mv)
                    + (" auto d = v.clone(); auto e = v.template clone<My>();" if cl else ""))
            for k in ("i32", "String<>"):
                M = "%s, %s, %s" % (k, t, a)
                kk = "rpp::move(make<%s>())" % k
                add("Map<%s>" % M, "Map<%s> v, w{u64{4}}; v.insert(%s, %s); v.emplace(%s, %s); v.reserve(9); v.clear(); v = rpp::move(w); v.erase(make<%s>()); (void)v.try_erase(make<%s>()); (void)v.get(make<%s>()); (void)v.try_get(make<%s>()); (void)v.contains(make<%s>()); (void)v.get_or_insert(%s); (void)v.length(); (void)v.empty(); for(auto& kv : v) use(kv.second); const auto& c = v; for(auto& kv : c) use(kv.second); (void)c.get(make<%s>()); (void)c.try_get(make<%s>());" % (M, kk, mv, kk, mv, k, k, k, k, k, kk, k, k)
                    + (" v.insert(%s, %s);" % (kk, mk) if cp else "") + (" (void)v.get(\"a\"_v); (void)v.contains(\"a\"_v); (void)v.try_get(\"a\"_v);" if k == "String<>" else " i32 q = 0; (void)v.get_or_insert(q); v.insert(q, %s);" % mv)
                    + (" auto d = v.clone(); auto e = v.template clone<My>();" if cl else ""))
            add("Box<%s>" % T, "Box<%s> v{%s}; Box<%s> w; v = rpp::move(w); (void)*v; (void)v.ok(); const auto& c = v; (void)*c;" % (T, mv, T)
                + (" auto d = v.clone(); auto e = v.template clone<My>();" if cl else ""))
            for r in ("Rc", "Arc"):
                add("%s<%s>" % (r, T), "%s<%s> v{%s}, w; w = v.dup(); v = rpp::move(w); (void)*v; (void)v.ok(); (void)v.references(); const auto& c = v; (void)*c; (void)c.dup();" % (r, T, mv))
        add("String<%s>" % a, "String<%s> v, w{u64{4}}; v = rpp::move(w); (void)v.clone(); (void)v.template clone<My>(); (void)v.template clone<Mdefault>(); (void)v.view(); (void)(v == w); (void)(v == v.view()); (void)(v.view() == v); (void)(v < w); (void)(v.view() < v.view()); (void)v[0]; (void)v.template terminate<My>(); (void)v.template append<My>(w); (void)v.write(0, 'a'); (void)v.write(0, w); (void)v.write(0, w.view()); for(u8 c : v) use(c); (void)v.view().template string<%s>(); (void)\"x\"_v.template append<%s>(v.view()); auto f = format<%s>(\"%%\"_v, v); (void)(v == make<String<My>>()); (void)(make<String<Mdefault>>() == v);" % (a, a, a, a))
    for a in ("Mdefault", "My"):
        add("Async::Pool<%s>" % a, "Async::Pool<%s> p; (void)p.n_threads(); auto c = [](Async::Pool<%s>& q) -> Async::Task<i32, %s> { co_await q.suspend(); co_return 1; }; auto t = c(p); (void)t.block(); (void)t.done();" % (a, a, a))
        add("Thread::spawn<%s>" % a, "auto f = Thread::spawn<%s>([](i32 x) { return x; }, 4); i32 r = f->block(); auto g = Thread::spawn<%s>([]() {}); g->block(); (void)g->ready(); use(r);" % (a, a))
        add("Range_Allocator<%s>" % a, "Range_Allocator<%s> r{u64{64}}, s{rpp::move(r)}; s = Range_Allocator<%s>{u64{64}}; auto x = s.allocate(8, 8); s.free(*x); (void)s.statistics();" % (a, a))
        add("Thread::Thread<%s>" % a, "Thread::Thread<%s> t{[]() {}}; t.join(); Thread::Thread<%s> u{rpp::move(t)};" % (a, a))
        add("Async::Task<void, %s>" % a, "auto c = [](Async::Pool<>&) -> Async::Task<void, %s> { co_return; }; Async::Pool<> p; auto t = c(p); t.block(); (void)t.done();" % a)
    for t in ELEMS:
        cl = t != "Mov"
        mv = "rpp::move(make<%s>())" % t
        add("Opt<%s>" % t, "Opt<%s> v, w{%s}; v = rpp::move(w); (void)*v; (void)v.ok(); v.clear(); v.emplace(%s); const auto& c = v; (void)*c;" % (t, mv, mv) + (" auto d = v.clone();" if cl else ""))
        add("Array<%s>" % t, "Array<%s, 2> w{%s, %s}, v{rpp::move(w)}; v = rpp::move(w); (void)v[0]; (void)v.length(); (void)v.data(); for(auto& x : v) use(x); const auto& c = v; for(auto& x : c) use(x); (void)v.slice(); (void)c.slice();" % (t, mv, mv)
            + (" auto d = v.clone();" if cl and not t.startswith("Pair") else ""))
        add("Pair<%s>" % t, "Pair<i32, %s> v{1, %s}; Pair<i32, %s> w{rpp::move(v)}; v = rpp::move(w); auto& [x, y] = v; use(x, y);" % (t, mv, t) + (" auto d = v.clone();" if cl else ""))
        add("Tuple<%s>" % t, "Tuple<i32, %s, u8> v{1, %s, u8{2}}; Tuple<i32, %s, u8> w{rpp::move(v)}; v = rpp::move(w); auto& [x, y, z] = v; use(x, y, z); (void)v.template get<1>();" % (t, mv, t) + (" auto d = v.clone();" if cl else ""))
        if t != "i32":
            add("Variant<%s>" % t, "Variant<i32, %s> v{%s}; Variant<i32, %s> w{rpp::move(v)}; v = rpp::move(w); v.match(Overload{[](i32) {}, [](%s&) {}}); const auto& c = v; c.match(Overload{[](i32) {}, [](const %s&) {}}); (void)v.index();" % (t, mv, t, t, t) + (" auto d = v.clone();" if cl else ""))
        add("Function capturing %s" % t, "auto f = [x = %s]() mutable { return &x; }; Function<void()> g{[x = %s]() {}}; Function<void()> h{rpp::move(g)}; g = rpp::move(h); g();" % (mv, mv))
        add("Thread::Future<%s>" % t, "auto f = Thread::spawn([]() { return %s; }); auto r = f->block(); use(r);" % mv)
        add("Async::Task<%s>" % t, "auto c = [](Async::Pool<>& p) -> Async::Task<%s> { co_return %s; }; Async::Pool<> p; auto t = c(p); auto r = t.block(); use(r); auto d = [](Async::Pool<>& p, Async::Task<%s>& t) -> Async::Task<void> { auto r = co_await t; co_return; };" % (t, mv, t))
    return out


def check(ctx):
    ctx.level = "proof"
    ctx.explanation = ("copy, move and clone traits of every owner and handle are evaluated by the compiler's type checker, %d misuses must be rejected at their "
                       "line while a twin is accepted, and every operation of every container, handle and primitive is instantiated for move-only, "
                       "clonable and copyable elements and three allocators" % len(PAIRS))
    ctx.assumptions = ["clang accepts and rejects programs as the C++20 standard says"]
    ctx.trusted = ["clang 18 front end"]
    lines = PRE.split("\n")
    owner = {}
    wit = []

    def line(code, w):
        lines.append(code.replace("\n", " "))
        owner[len(lines)] = w

    # one unit: traits and accepted programs; another: rejected programs
    names = ["copies", "copy-assigns", "moves", "move-assigns", "clones"]
    k = 0
    for t in re.split(r"[|\n]", TRAITS.strip()):
        ty, bits = t.rsplit(" ", 1)
        for nm, m, b in zip(names, ("COPYC(T%d)", "COPYA(T%d)", "MOVEC(T%d)", "MOVEA(T%d)", "Clone<T%d>"), bits):
            w = ("trait", "%s %s" % (ty, nm), "%s %s" % (ty, nm if b == "0" else "no longer " + nm))
            wit.append(w)
            line(("using T%d = %s; " % (k, ty) if nm == "copies" else "") + "static_assert(%s%s);" % ("" if b == "1" else "!", m % k), w)
        k += 1
    for i, (nm, decl, bad, good) in enumerate(PAIRS):
        w = ("accepted", "without " + nm, "a correct program is rejected: " + (decl + " " + good)[:160])
        wit.append(w)
        line("void good%d() { %s %s }" % (i, decl, good), w)
    for i, (nm, code) in enumerate(offered()):
        w = ("offered", nm, "an operation of %s does not compile" % nm)
        wit.append(w)
        line("void offer%d() { %s }" % (i, code), w)
    good_unit = "\n".join(lines)
    lines, owner2, owner_good = PRE.split("\n"), {}, owner
    owner = owner2
    for i, (nm, decl, bad, good) in enumerate(PAIRS):
        w = ("rejected", nm, "a misuse is accepted (%s): %s" % (nm, (decl + " " + bad)[:160]))
        wit.append(w)
        line("void bad%d() { %s %s }" % (i, decl, bad), w)
    bad_unit = "\n".join(lines)

    def hits(text, owner):
        """witness -> first message of an error at its line, or of one instantiated from it"""
        rc, out = syntax_only(text, ["-ferror-limit=0", "-ftemplate-backtrace-limit=0", "-fno-caret-diagnostics", "-fno-color-diagnostics"])
        got, pend, lost = {}, None, []
        for l in out.split("\n"):
            m = re.match(r"(.*?):(\d+):\d+: (error|note|fatal error): (.*)$", l)
            if not m:
                continue
            f, ln, kind, msg = m.group(1), int(m.group(2)), m.group(3), m.group(4)
            mine = "/w_" in f
            if kind != "note":
                if pend:
                    lost.append(pend)
                pend = "%s:%d: %s" % (f.replace(REPO + "/", ""), ln, msg)
            if mine and ln in owner and pend:
                got.setdefault(owner[ln], pend if kind == "note" else msg)
                pend = None
        if pend:
            lost.append(pend)
        return got, lost

    bad_good, lost = hits(good_unit, owner_good)
    bad_bad, lost2 = hits(bad_unit, owner2)
    if lost:
        ctx.fail("the headers do not compile: %s" % lost[0])
        return
    for w in wit:
        name = "%s: %s" % (w[0], w[1])
        key = "%s:%s" % (w[0], w[1].replace(" ", "-"))
        if w[0] == "rejected":
            if w in bad_bad:
                ctx.ok(name, bad_bad[w][:120])
            else:
                ctx.bad(name, key, w[2])
        elif w in bad_good:
            ctx.bad(name, key, "%s\n  %s" % (w[2], bad_good[w]))
        else:
            ctx.ok(name, "type-checks")
    ctx.count("witness programs", len(wit))
    ctx.floor("witness programs", len(wit), 500)
