#include <rpp/base.h>
#include <rpp/array.h>
#include <rpp/box.h>
#include <rpp/function.h>
#include <rpp/heap.h>
#include <rpp/map.h>
#include <rpp/opt.h>
#include <rpp/pair.h>
#include <rpp/queue.h>
#include <rpp/rc.h>
#include <rpp/ref1.h>
#include <rpp/slice.h>
#include <rpp/stack.h>
#include <rpp/storage.h>
#include <rpp/tuple.h>
#include <rpp/variant.h>
#include <rpp/vec.h>
#include <rpp/vmath.h>
#include <rpp/format.h>
#include <rpp/impl/vmath.cpp>
using namespace rpp;

struct Tok {
    u64 x, y, z;
    bool operator<(const Tok& o) const { return x < o.x; }
    bool operator==(const Tok& o) const { return x == o.x; }
};
struct Tok2 {
    u64 x;
};
template<> struct rpp::Reflect::Refl<Tok> { constexpr static Literal name = "Tok"; constexpr static Kind kind = Kind::void_; };
template<> struct rpp::Reflect::Refl<Tok2> { constexpr static Literal name = "Tok2"; constexpr static Kind kind = Kind::void_; };
template<> struct rpp::Hash::Hash<Tok> { static u64 hash(const Tok& t) noexcept { return t.x; } };

u64 tok_measure(const void*);
u64 tok_write(void*, u64, const void*);
namespace rpp::Format {
template<> struct Measure<Tok> { static u64 measure(const Tok& t) noexcept { return tok_measure(&t); } };
template<Allocator O> struct Write<O, Tok> { static u64 write(String<O>& o, u64 i, const Tok& t) noexcept { return tok_write(&o, i, &t); } };
template<> struct Measure<Tok2> { static u64 measure(const Tok2& t) noexcept { return tok_measure(&t); } };
template<Allocator O> struct Write<O, Tok2> { static u64 write(String<O>& o, u64 i, const Tok2& t) noexcept { return tok_write(&o, i, &t); } };
} // namespace rpp::Format

struct Rec {
    Tok2 pad;
    Tok first;
    Tok2 second;
    Tok c;
};
struct Rec1 {
    Tok only;
};
struct Rec0 {};
RPP_RECORD(Rec, RPP_FIELD(first), RPP_FIELD(second), RPP_FIELD(c));
RPP_NAMED_RECORD(Rec1, "Single", RPP_FIELD(only));
RPP_RECORD(Rec0, );
enum class En : u8 { zero, five = 5, other = 200 };
RPP_ENUM(En, zero, RPP_CASE(zero), RPP_CASE(five), RPP_CASE(other));
using S = String<Mdefault>;

template<typename T> u64 m(const T& t) { return Format::Measure<T>::measure(t); }
template<typename T> u64 w(S& s, u64 i, const T& t) { return Format::Write<Mdefault, T>::write(s, i, t); }
#define BOTH(N, ...)                                                                               \
    u64 h_m_##N(const __VA_ARGS__* t) { return m<__VA_ARGS__>(*t); }                               \
    u64 h_w_##N(S* s, u64 i, const __VA_ARGS__* t) { return w<__VA_ARGS__>(*s, i, *t); }
using FnA = Function<void(i32, f32)>;
using FnB = Function<u64()>;
using TokArr = Tok[3];
struct L_vec { Vec<Tok, Mdefault> c; };
struct L_slice { Slice<Tok> c; };
struct L_queue { Queue<Tok, Mdefault> c; };
struct L_stack { Stack<Tok, Mdefault> c; };
struct L_heap { Heap<Tok, Mdefault> c; };
struct L_map { Map<Tok, Tok2, Mdefault> c; };
struct L_string { String<Mdefault> c; };
struct L_view { String_View c; };
struct L_opt { Opt<Tok> c; };
struct L_variant { Variant<Tok, Tok2> c; };
struct L_nvariant { Variant<Named<"A", Tok>, Named<"Bc", Tok2>> c; };
struct L_pair { Pair<Tok, Tok2> c; };
struct L_tuple { Tuple<Tok, Tok2, Tok> c; };
struct L_rc { Rc<Tok> c; };
struct L_ref { Ref<Tok> c; };
struct L_box { Box<Tok> c; };
struct L_rec { Rec c; };
struct L_quat { Math::Quat c; };
struct L_bbox { Math::BBox c; };
struct L_wopt { Opt<Pair<String_View, String_View>> c; };
struct L_wpair { Pair<String_View, String_View> c; };
struct L_nopt { Opt<Pair<i64, String_View>> c; };
struct L_npair { Pair<i64, String_View> c; };
struct L_fopt { Opt<Pair<f32, String_View>> c; };
struct L_fpair { Pair<f32, String_View> c; };
struct L_eopt { Opt<Pair<En, String_View>> c; };
struct L_epair { Pair<En, String_View> c; };
u64 force_layout = sizeof(L_vec) + sizeof(L_slice) + sizeof(L_queue) + sizeof(L_stack) + sizeof(L_heap) + sizeof(L_map) + sizeof(L_string) + sizeof(L_view) + sizeof(L_opt) + sizeof(L_variant) + sizeof(L_nvariant) + sizeof(L_pair) + sizeof(L_tuple) + sizeof(L_rc) + sizeof(L_ref) + sizeof(L_box) + sizeof(L_rec) + sizeof(L_quat) + sizeof(L_bbox) + sizeof(L_wopt) + sizeof(L_wpair) + sizeof(L_nopt) + sizeof(L_npair) + sizeof(L_fopt) + sizeof(L_fpair) + sizeof(L_eopt) + sizeof(L_epair);
extern "C" {
BOTH(vec, Vec<Tok, Mdefault>)
BOTH(slice, Slice<Tok>)
BOTH(array, Array<Tok, 3>)
BOTH(array1, Array<Tok, 1>)
BOTH(carray, TokArr)
BOTH(queue, Queue<Tok, Mdefault>)
BOTH(stack, Stack<Tok, Mdefault>)
BOTH(heap, Heap<Tok, Mdefault>)
BOTH(map, Map<Tok, Tok2, Mdefault>)
BOTH(string, String<Mhidden>)
BOTH(view, String_View)
BOTH(storage, Storage<Tok>)
BOTH(ref, Ref<Tok>)
BOTH(box, Box<Tok>)
BOTH(opt, Opt<Tok>)
BOTH(rc, Rc<Tok>)
BOTH(arc, Arc<Tok>)
BOTH(pair, Pair<Tok, Tok2>)
BOTH(tuple0, Tuple<>)
BOTH(tuple1, Tuple<Tok>)
BOTH(tuple3, Tuple<Tok, Tok2, Tok>)
BOTH(variant, Variant<Tok, Tok2>)
BOTH(nvariant, Variant<Named<"A", Tok>, Named<"Bc", Tok2>>)
BOTH(rec, Rec)
BOTH(rec1, Rec1)
BOTH(rec0, Rec0)
BOTH(en, En)
BOTH(vec2, Math::Vect<f32, 2>)
BOTH(vec3, Math::Vect<f32, 3>)
BOTH(vec4, Math::Vect<f32, 4>)
BOTH(vec3i, Math::Vect<i32, 3>)
BOTH(vec4u, Math::Vect<u32, 4>)
BOTH(vec5, Math::Vect<f32, 5>)
BOTH(mat4, Math::Mat4)
BOTH(quat, Math::Quat)
BOTH(bbox, Math::BBox)
BOTH(ptr, const Tok*)
BOTH(i8, i8)
BOTH(i16, i16)
BOTH(i32, i32)
BOTH(i64, i64)
BOTH(u8, u8)
BOTH(u16, u16)
BOTH(u32, u32)
BOTH(u64, u64)
BOTH(f32, f32)
BOTH(f64, f64)
BOTH(bool, bool)
BOTH(char, char)
u64 h_parse(const String_View* f, u64* args) { return Format::parse_fmt(*f, *args); }
u64 h_len0(const String_View* f) { return format_length(*f); }
u64 h_len1(const String_View* f, const Tok* a) { return format_length(*f, *a); }
u64 h_len3(const String_View* f, const Tok* a, const Tok2* b, const Tok* c) { return format_length(*f, *a, *b, *c); }
u64 h_put0(const String_View* f, u64 fi, S* o, u64 i) { return Format::write(*f, fi, *o, i); }
u64 h_put1(const String_View* f, u64 fi, S* o, u64 i, const Tok* a) { return Format::write(*f, fi, *o, i, *a); }
u64 h_put3(const String_View* f, u64 fi, S* o, u64 i, const Tok* a, const Tok2* b, const Tok* c) { return Format::write(*f, fi, *o, i, *a, *b, *c); }
void h_format(S* out, const String_View* f, const Tok* a, const Tok2* b) { new(out) S{format<Mdefault>(*f, *a, *b)}; }
void h_format0(S* out, const String_View* f) { new(out) S{format<Mdefault>(*f)}; }
void h_concat(S* out, const String_View* sep, String_View* a, S* b, String_View* c) { new(out) S{concat<Mdefault>(*sep, move(*a), move(*b), move(*c))}; }
void h_concat1(S* out, const String_View* sep, String_View* a) { new(out) S{concat<Mdefault>(*sep, move(*a))}; }
u64 h_snprintf(S* s, u64 i, const char* f, const f32* x) { return Format::snprintf(*s, i, f, *x); }
void h_parse_i64(Opt<Pair<i64, String_View>>* out, const String_View* s) { new(out) Opt<Pair<i64, String_View>>{Format::parse_i64(*s)}; }
void h_parse_f32(Opt<Pair<f32, String_View>>* out, const String_View* s) { new(out) Opt<Pair<f32, String_View>>{Format::parse_f32(*s)}; }
void h_parse_string(Opt<Pair<String_View, String_View>>* out, const String_View* s) { new(out) Opt<Pair<String_View, String_View>>{Format::parse_string(*s)}; }
void h_parse_enum(Opt<Pair<En, String_View>>* out, const String_View* s) { new(out) Opt<Pair<En, String_View>>{Format::parse_enum<En>(*s)}; }
void h_skip(String_View* out, const String_View* s) { new(out) String_View{Format::skip_whitespace(*s)}; }
void h_enum_name(Literal* out, En e) { new(out) Literal{Format::enum_name(e)}; }
}
