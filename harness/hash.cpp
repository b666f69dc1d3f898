// hashing of every kind of key
#include <rpp/base.h>
#include <rpp/vmath.h>
using namespace rpp;
using S = String<Mdefault>;
using V = String_View;
using L = Log::Location;
using F3 = Math::Vect<f32, 3>;
using D2 = Math::Vect<f64, 2>;
using I3 = Math::Vect<i32, 3>;
using F4 = Math::Vect<f32, 4>;

struct L_s { S s; };
struct L_v { V v; };
struct L_l { L l; };
u64 force_layout = sizeof(L_s) + sizeof(L_v) + sizeof(L_l);

#define T(n, t) \
    u64 h_##n(const t* x) { return rpp::hash(*x); } \
    u64 h_nz_##n(const t* x) { return rpp::hash_nonzero(*x); } \
    u64 h_two_##n(const t* x, const u64* y) { return rpp::hash(*x, *y); }

extern "C" {
T(i8, i8) T(i16, i16) T(i32, i32) T(i64, i64) T(u8, u8) T(u16, u16) T(u32, u32) T(u64, u64) T(char, char)
T(f32, f32) T(f64, f64) T(ptr, S*const) T(s, S) T(v, V) T(l, L) T(f3, F3) T(d2, D2) T(i3, I3) T(f4, F4)
}
