#include "tok.h"
#include <rpp/tuple.h>
extern "C" u64 v_three(const void*, const void*, const void*) noexcept;
using T0 = TokN<0>; using T1 = TokN<1>; using T2 = TokN<2>;
using P2 = Pair<T0, T1>;
using PC = Pair<TokC, T1>;
using PD = Pair<T0, TokC>;
using PX = Pair<TokC, TokC>;
using U3 = Tuple<T0, T1, T2>;
using UC = Tuple<TokC, T1>;
using A3 = Array<TokC, 3>;
using AT = Array<Tok, 2>;
struct L_p { P2 p; };
struct L_u { U3 p; };
struct L_uc { UC p; };
u64 force_layout = sizeof(L_p) + sizeof(L_u) + sizeof(L_uc);
extern "C" {
#define COMMON(N, C)                                                                               \
    void h_##N##_move(C* out, C* s) { new(out) C{move(*s)}; }                                      \
    void h_##N##_assign(C* v, C* s) { *v = move(*s); }                                             \
    void h_##N##_clone(C* out, const C* s) { new(out) C{s->clone()}; }                             \
    void h_##N##_dtor(C* v) { v->~C(); }
COMMON(p, P2)
COMMON(pc, PC)
COMMON(pd, PD)
COMMON(px, PX)
COMMON(u, U3)
COMMON(a, A3)
COMMON(at, AT)
void h_p_ctor(P2* out, T0* a, T1* b) { new(out) P2{move(*a), move(*b)}; }
void h_px_ctor_cc(PX* out, const TokC* a, const TokC* b) { new(out) PX{*a, *b}; }
void h_px_ctor_cm(PX* out, const TokC* a, TokC* b) { new(out) PX{*a, move(*b)}; }
void h_px_ctor_mc(PX* out, TokC* a, const TokC* b) { new(out) PX{move(*a), *b}; }
void h_px_ctor_mm(PX* out, TokC* a, TokC* b) { new(out) PX{move(*a), move(*b)}; }
void h_px_copy(PX* out, const PX* s) { new(out) PX{*s}; }
const void* h_p_get0(P2* v) { return &v->get<0>(); }
const void* h_p_get1(P2* v) { return &v->get<1>(); }
const void* h_p_cget0(const P2* v) { return &v->get<0>(); }
const void* h_p_cget1(const P2* v) { return &v->get<1>(); }
const void* h_p_first(P2* v) { return &v->first; }
const void* h_p_second(P2* v) { return &v->second; }
void h_u_ctor(U3* out, T0* a, T1* b, T2* c) { new(out) U3{move(*a), move(*b), move(*c)}; }
const void* h_u_get0(U3* v) { return &v->get<0>(); }
const void* h_u_get1(U3* v) { return &v->get<1>(); }
const void* h_u_get2(U3* v) { return &v->get<2>(); }
const void* h_u_cget0(const U3* v) { return &v->get<0>(); }
const void* h_u_cget1(const U3* v) { return &v->get<1>(); }
const void* h_u_cget2(const U3* v) { return &v->get<2>(); }
u64 h_u_length(const U3* v) { return v->length(); }
u64 h_u_invoke(U3* v) { return v->invoke([](const T0& a, const T1& b, const T2& c) { return v_three(&a, &b, &c); }); }
void h_a_ctor(A3* out, TokC* a, TokC* b, TokC* c) { new(out) A3{move(*a), move(*b), move(*c)}; }
void h_a_ctor_copy(A3* out, const TokC* a, const TokC* b, const TokC* c) { new(out) A3{*a, *b, *c}; }
void h_a_copy(A3* out, const A3* s) { new(out) A3{*s}; }
void h_a_default(A3* out) { new(out) A3{}; }
const void* h_a_index(A3* v, u64 i) { return &(*v)[i]; }
const void* h_a_cindex(const A3* v, u64 i) { return &(*v)[i]; }
u64 h_a_length(const A3* v) { return v->length(); }
const void* h_a_begin(A3* v) { return v->begin(); }
const void* h_a_end(A3* v) { return v->end(); }
const void* h_a_cbegin(const A3* v) { return v->begin(); }
const void* h_a_cend(const A3* v) { return v->end(); }
const void* h_a_data(A3* v) { return v->data(); }
const void* h_a_cdata(const A3* v) { return v->data(); }
const void* h_a_slice(A3* v, u64 i) { return &v->slice()[i]; }
const void* h_a_cslice(const A3* v, u64 i) { return &v->slice()[i]; }
// slices: a view never reaches outside what it was given
const void* h_s_index(const Slice<Tok>* s, u64 i) { return &(*s)[i]; }
const void* h_s_front(const Slice<Tok>* s) { return &s->front(); }
const void* h_s_back(const Slice<Tok>* s) { return &s->back(); }
const void* h_s_begin(const Slice<Tok>* s) { return s->begin(); }
const void* h_s_end(const Slice<Tok>* s) { return s->end(); }
void h_s_sub(const Slice<Tok>* s, u64 a, u64 b, Slice<Tok>* out) { *out = s->sub(a, b); }
bool h_s_empty(const Slice<Tok>* s) { return s->empty(); }
u64 h_s_length(const Slice<Tok>* s) { return s->length(); }
u64 h_s_bytes(const Slice<Tok>* s) { return s->bytes(); }
void* h_s_mindex(Slice<Tok>* s, u64 i) { return &(*s)[i]; }
void* h_s_mbegin(Slice<Tok>* s) { return s->begin(); }
void* h_s_mend(Slice<Tok>* s) { return s->end(); }
void* h_s_mdata(Slice<Tok>* s) { return s->data(); }
const void* h_s_data(const Slice<Tok>* s) { return s->data(); }
bool h_s_init(const std::initializer_list<Tok>* l) { Slice<const Tok> s(*l); return s.begin() == l->begin() && s.length() == l->size(); }
void h_s_const(const Slice<Tok>* s, Slice<const Tok>* out) { new(out) Slice<const Tok>(*s); }
void h_s_clone(const Slice<Tok>* s, Slice<Tok>* out) { new(out) Slice<Tok>(s->clone()); }
void h_s_ctor(const Slice<Tok>*, Tok* p, u64 n, Slice<Tok>* out) { new(out) Slice<Tok>(p, n); }
void h_s_cctor(const Slice<Tok>*, const Tok* p, u64 n, Slice<const Tok>* out) { new(out) Slice<const Tok>(p, n); }
void h_s_none(const Slice<Tok>*, Slice<Tok>* out) { new(out) Slice<Tok>(); }
void h_s_to_bytes(Slice<Tok>* s, Slice<u8>* out) { new(out) Slice<u8>(s->to_bytes()); }
void h_s_cto_bytes(const Slice<Tok>* s, Slice<const u8>* out) { new(out) Slice<const u8>(s->to_bytes()); }
// references: one address or none
const void* h_r_deref(Ref<Tok>* r) { return &**r; }
const void* h_r_cderef(const Ref<Tok>* r) { return &**r; }
const void* h_r_arrow(Ref<Tok>* r) { return r->operator->(); }
const void* h_r_carrow(const Ref<Tok>* r) { return r->operator->(); }
bool h_r_ok(const Ref<Tok>* r) { return r->ok(); }
void h_r_ctor(const Ref<Tok>*, Tok* t, Ref<Tok>* out) { new(out) Ref<Tok>(*t); }
void h_r_copy(const Ref<Tok>* r, Ref<Tok>* out) { new(out) Ref<Tok>(*r); }
void h_r_move(Ref<Tok>* r, Ref<Tok>* out) { new(out) Ref<Tok>(move(*r)); }
void h_r_assign_copy(const Ref<Tok>* r, Ref<Tok>* out) { *out = *r; }
void h_r_assign_move(Ref<Tok>* r, Ref<Tok>* out) { *out = move(*r); }
void h_r_none(const Ref<Tok>*, Ref<Tok>* out) { new(out) Ref<Tok>(); }
bool h_r_ok_none(const Ref<Tok>*) { Ref<Tok> r; return r.ok(); }
const void* h_r_deref_none(const Ref<Tok>*) { Ref<Tok> r; return &*r; }
const void* h_r_arrow_none(const Ref<Tok>*) { Ref<Tok> r; return r.operator->(); }
}
