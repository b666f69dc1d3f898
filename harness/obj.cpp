// Opt, Box, Rc, Arc over an opaque element
#include "tok.h"
#include <rpp/box.h>
#include <rpp/rc.h>
#ifndef ELEM
#define ELEM Tok
#endif
using E = ELEM;
using O = Opt<E>;
using B = Box<E, Al<0>>;
using R = Rc<E, Al<0>>;
using Q = Arc<E, Al<0>>;
struct L_o { O o; };
struct L_b { B b; };
struct L_r { R r; };
struct L_q { Q q; };
struct L_rd { detail::Rc_Data<E> d; };
struct L_qd { detail::Arc_Data<E> d; };
u64 force_layout = sizeof(L_o) + sizeof(L_b) + sizeof(L_r) + sizeof(L_q) + sizeof(L_rd) + sizeof(L_qd);
extern "C" {
#define COMMON(P, C)                                                                               \
    void h_##P##_ctor(C* out) { new(out) C{}; }                                                    \
    void h_##P##_ctor_value(C* out, E* e) { new(out) C{move(*e)}; }                                \
    void h_##P##_ctor_move(C* out, C* s) { new(out) C{move(*s)}; }                                 \
    void h_##P##_assign_move(C* v, C* s) { *v = move(*s); }                                        \
    void h_##P##_assign_self(C* v) { *v = move(*v); }                                              \
    void h_##P##_dtor(C* v) { v->~C(); }                                                           \
    E* h_##P##_deref(C* v) { return &**v; }                                                        \
    const E* h_##P##_cderef(const C* v) { return &**v; }                                           \
    E* h_##P##_arrow(C* v) { return v->operator->(); }                                             \
    const E* h_##P##_carrow(const C* v) { return v->operator->(); }                                \
    bool h_##P##_ok(const C* v) { return v->ok(); }
COMMON(o, O)
void h_o_assign_value(O* v, E* e) { *v = move(*e); }
void h_o_emplace(O* v, E* e) { v->emplace(move(*e)); }
void h_o_clear(O* v) { v->clear(); }
void h_o_clone(O* out, const O* s) { new(out) O{s->clone()}; }
E* h_o_value_or(O* v, E* e) { return &v->value_or(*e); }
COMMON(b, B)
void h_b_make(B* out, E* e) { new(out) B{B::make(move(*e))}; }
void h_b_clone(B* out, const B* s) { new(out) B{s->clone()}; }
void h_b_emplace(B* v, E* e) { v->emplace(move(*e)); }
COMMON(r, R)
void h_r_make(R* out, E* e) { new(out) R{R::make(move(*e))}; }
void h_r_dup(R* out, const R* s) { new(out) R{s->dup()}; }
void h_r_clear(R* v) { v->clear(); }
u64 h_r_refs(const R* v) { return v->references(); }
void h_r_from_this(R* out, R* s) { new(out) R{R::from_this(&**s)}; }
void h_r_assign_dup(R* v, const R* s) { *v = s->dup(); }
COMMON(q, Q)
void h_q_make(Q* out, E* e) { new(out) Q{Q::make(move(*e))}; }
void h_q_dup(Q* out, const Q* s) { new(out) Q{s->dup()}; }
void h_q_clear(Q* v) { v->clear(); }
u64 h_q_refs(const Q* v) { return v->references(); }
void h_q_from_this(Q* out, Q* s) { new(out) Q{Q::from_this(&**s)}; }
void h_q_assign_dup(Q* v, const Q* s) { *v = s->dup(); }
#ifdef HAS_SEED
void h_o_ctor_args(O* out) { new(out) O{1}; }
void h_b_ctor_args(B* out) { new(out) B{1}; }
void h_r_ctor_args(R* out) { new(out) R{1}; }
void h_q_ctor_args(Q* out) { new(out) Q{1}; }
void h_o_emplace_args(O* v) { v->emplace(1); }
void h_b_emplace_args(B* v) { v->emplace(1); }
void h_b_make_args(B* out) { new(out) B{B::make(1)}; }
void h_r_make_args(R* out) { new(out) R{R::make(1)}; }
void h_q_make_args(Q* out) { new(out) Q{Q::make(1)}; }
#endif
}
