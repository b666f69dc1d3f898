// the reflection tables as data, and the functions that walk them
#include <rpp/base.h>
#include <rpp/rc.h>
#include <rpp/stack.h>
#include <rpp/heap.h>
#include <rpp/queue.h>
#include <rpp/tuple.h>
#include <rpp/variant.h>
#include <rpp/thread.h>
#include <rpp/function.h>
#include <rpp/vmath.h>
using namespace rpp;
namespace R = rpp::Reflect;

struct Row {
    char name[32];
    u64 off, size, kind;
};

template<typename T>
constexpr u64 kind_of() {
    if constexpr(requires { R::Refl<T>::kind; })
        return u64(R::Refl<T>::kind);
    else
        return 99;
}

template<u64 N>
struct Table {
    Row rows[N + 1] = {};
};

template<u64 N>
struct Fill {
    Table<N>& t;
    u64& i;
    template<typename F>
    constexpr void apply() noexcept {
        Row& r = t.rows[i++];
        for(u64 k = 0; k < 32; k++) r.name[k] = F::name.c_string[k];
        if constexpr(requires { F::offset; }) {
            r.off = F::offset;
            r.size = sizeof(typename F::type);
            r.kind = kind_of<typename F::type>();
        } else {
            r.off = u64(F::value);
        }
    }
};

template<typename T>
constexpr auto table() {
    constexpr u64 n = R::List_Length<typename R::Refl<T>::members>;
    Table<n> t;
    u64 i = 1;
    for(u64 k = 0; k < 32; k++) t.rows[0].name[k] = R::Refl<T>::name.c_string[k];
    t.rows[0].off = n;
    t.rows[0].size = sizeof(T);
    t.rows[0].kind = kind_of<T>();
    R::Iter<Fill<n>, typename R::Refl<T>::members>::apply(Fill<n>{t, i});
    return t;
}

extern "C" void sink(const char* name, const void* field, u64 size);
extern "C" void case_sink(const char* name, u64 value);

struct Visit {
    template<typename T>
    void apply(const Literal& n, T& f) noexcept {
        sink(n.c_string, &f, sizeof(T));
    }
};

struct Const_Visit {
    template<typename T>
    void apply(const Literal& n, const T& f) noexcept {
        sink(n.c_string, &f, sizeof(T));
    }
};

#define TYPES                                                                                                          \
    X(vec, RPP_PACK(Vec<i32>)) X(vecs, RPP_PACK(Vec<String<>, Mallocator<"r">>)) X(queue, RPP_PACK(Queue<i32>)) X(stack, RPP_PACK(Stack<i32>))   \
    X(heap, RPP_PACK(Heap<i32>)) X(map, RPP_PACK(Map<i32, u8>)) X(map2, RPP_PACK(Map<String<>, Vec<u8>>)) X(slot, RPP_PACK(rpp::detail::Map_Slot<i32, u8>))        \
    X(slot2, RPP_PACK(rpp::detail::Map_Slot<u64, String<>>)) X(string, String<>) X(view, String_View) X(slice, RPP_PACK(Slice<i32>)) X(opt, RPP_PACK(Opt<u8>)) X(opt8, RPP_PACK(Opt<u64>)) \
    X(pair, RPP_PACK(Pair<u8, u64>)) X(pair2, RPP_PACK(Pair<u64, u8>)) X(box, RPP_PACK(Box<i32>)) X(rc, RPP_PACK(Rc<i32>)) X(arc, RPP_PACK(Arc<i32>))         \
    X(rcd, RPP_PACK(rpp::detail::Rc_Data<u8>)) X(arcd, RPP_PACK(rpp::detail::Arc_Data<u64>)) X(ref, RPP_PACK(Ref<i32>)) X(storage, RPP_PACK(Storage<i32>))              \
    X(var, RPP_PACK(Variant<u8, u64>)) X(var2, RPP_PACK(Variant<i32, String<>, u8>)) X(tuple, RPP_PACK(Tuple<u8, u64, u16>)) X(tuple1, RPP_PACK(Tuple<i32>))        \
    X(named, RPP_PACK(Named<"n", u8>)) X(atomic, Thread::Atomic) X(promise, RPP_PACK(Thread::Promise<u8>)) X(promisev, RPP_PACK(Thread::Promise<void>))         \
    X(thread, Thread::Thread<>) X(location, Log::Location) X(palloc, Profile::Alloc)                                   \
    X(vec2, Vec2) X(vec3, Vec3) X(vec4, Vec4) X(vec2i, Vec2i) X(vec3i, Vec3i) X(vec4i, Vec4i) X(vec2u, Vec2u) X(vec3u, Vec3u) X(vec4u, Vec4u)         \
    X(vec5, VecN<5>) X(vec5i, VecNi<5>) X(vec5u, VecNu<5>) X(mat4, Mat4) X(bbox, BBox) X(quat, Quat)

#define ENUMS X(level, Log::Level) X(priority, Thread::Priority) X(kind, Reflect::Kind)

#define X(n, t) struct L_##n { t v; };
TYPES
#undef X
#define X(n, t) + sizeof(L_##n)
u64 force_layout = 0 TYPES;
#undef X

extern "C" {
#define X(n, t) extern constexpr auto tab_##n = table<t>(); const void* h_tab_##n() { return &tab_##n; } \
    void h_it_##n(t* p) { R::iterate_record(Visit{}, *p); } \
    void h_cit_##n(const t* p) { R::iterate_record(Const_Visit{}, *p); }
TYPES
#undef X
#define X(n, t) extern constexpr auto tab_##n = table<t>(); const void* h_tab_##n() { return &tab_##n; } \
    void h_en_##n() { R::iterate_enum<t>([](const char* name, t v) { case_sink(name, u64(v)); }); } \
    u64 h_def_##n() { return u64(R::Refl<t>::default_); }
ENUMS
#undef X
}
