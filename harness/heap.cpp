#include "tok.h"
#include <rpp/heap.h>
#ifndef ELEM
#define ELEM Tok
#endif
using E = ELEM;
using C = Heap<E, Al<0>>;
struct L_c { C c; };
u64 force_layout = sizeof(L_c);
extern "C" {
void h_ctor(C* out) { new(out) C{}; }
void h_ctor_cap(C* out, u64 n) { new(out) C(n); }
void h_ctor_move(C* out, C* s) { new(out) C{move(*s)}; }
void h_assign_move(C* v, C* s) { *v = move(*s); }
void h_dtor(C* v) { v->~C(); }
void h_clear(C* v) { v->clear(); }
void h_reserve(C* v, u64 n) { v->reserve(n); }
void h_grow(C* v) { v->grow(); }
void h_push(C* v, E* t) { v->push(move(*t)); }
void h_emplace_move(C* v, E* t) { v->emplace(move(*t)); }
void h_pop(C* v) { v->pop(); }
E* h_back(C* v) { return &v->top(); }
const E* h_cback(const C* v) { return &v->top(); }
bool h_empty(const C* v) { return v->empty(); }
bool h_full(const C* v) { return v->full(); }
u64 h_length(const C* v) { return v->length(); }
E* h_begin(C* v) { return v->begin(); }
E* h_end(C* v) { return v->end(); }
const E* h_cbegin(const C* v) { return v->begin(); }
const E* h_cend(const C* v) { return v->end(); }
void h_init3(C* out, E* a, E* b, E* c) { new(out) C(move(*a), move(*b), move(*c)); }
void h_clone(C* out, const C* s) { new(out) C{s->clone()}; }
}
