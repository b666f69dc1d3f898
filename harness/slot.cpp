// one slot of a map: present exactly when its hash is not the empty mark
#include "tok.h"
#include <rpp/map.h>
namespace rpp::Hash {
template<> struct Hash<Tok> { static u64 hash(const Tok&) noexcept; };
template<> struct Hash<TokC> { static u64 hash(const TokC&) noexcept; };
}
using S0 = detail::Map_Slot<Tok, Tok>;
using S1 = detail::Map_Slot<Tok, TokC>;
using S2 = detail::Map_Slot<TokC, Tok>;
using S3 = detail::Map_Slot<TokC, TokC>;
struct L_s { S0 s; };
u64 force_layout = sizeof(L_s);
extern "C" {
#define COMMON(N, C, K, V)                                                                         \
    void h_##N##_ctor(C* out) { new(out) C{}; }                                                    \
    void h_##N##_make(C* out, K* k, V* v) { new(out) C{move(*k), move(*v)}; }                      \
    void h_##N##_move(C* out, C* s) { new(out) C{move(*s)}; }                                      \
    void h_##N##_assign(C* v, C* s) { *v = move(*s); }                                             \
    void h_##N##_clone(C* out, const C* s) { new(out) C{s->clone()}; }                             \
    void h_##N##_dtor(C* v) { v->~C(); }
COMMON(s0, S0, Tok, Tok)
COMMON(s1, S1, Tok, TokC)
COMMON(s2, S2, TokC, Tok)
COMMON(s3, S3, TokC, TokC)
}
