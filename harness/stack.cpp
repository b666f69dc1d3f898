#include "tok.h"
#include <rpp/stack.h>
#ifndef ELEM
#define ELEM Tok
#endif
using E = ELEM;
using C = Stack<E, Al<0>>;
struct L_c { C c; };
u64 force_layout = sizeof(L_c);
extern "C" {
void h_ctor(C* out) { new(out) C{}; }
void h_ctor_cap(C* out, u64 n) { new(out) C(n); }
void h_ctor_move(C* out, C* s) { new(out) C{move(*s)}; }
void h_assign_move(C* v, C* s) { *v = move(*s); }
void h_dtor(C* v) { v->~C(); }
void h_clear(C* v) { v->clear(); }
E* h_push_ref(C* v, E* t) { return &v->push(move(*t)); }
E* h_emplace_move(C* v, E* t) { return &v->emplace(move(*t)); }
void h_pop(C* v) { v->pop(); }
E* h_back(C* v) { return &v->top(); }
const E* h_cback(const C* v) { return &v->top(); }
bool h_empty(const C* v) { return v->empty(); }
bool h_full(const C* v) { return v->full(); }
u64 h_length(const C* v) { return v->length(); }
E* h_begin(C* v) { return v->begin(); }
E* h_end(C* v) { return v->end(); }
const E* h_cbegin(const C* v) { return v->begin(); }
const E* h_cend(const C* v) { return v->end(); }
void h_init3(C* out, E* a, E* b, E* c) { new(out) C(move(*a), move(*b), move(*c)); }
void h_clone(C* out, const C* s) { new(out) C{s->clone()}; }
#ifdef HAS_COPY
void h_push_copy(C* v, const E* t) { v->push(*t); }
#endif
}
