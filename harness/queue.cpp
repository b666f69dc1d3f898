#include "tok.h"
#ifndef ELEM
#define ELEM Tok
#endif
using E = ELEM;
using C = Queue<E, Al<0>>;
struct L_c { C c; };
u64 force_layout = sizeof(L_c);
extern "C" {
void h_ctor(C* out) { new(out) C{}; }
void h_ctor_cap(C* out, u64 n) { new(out) C(n); }
void h_ctor_move(C* out, C* s) { new(out) C{move(*s)}; }
void h_assign_move(C* v, C* s) { *v = move(*s); }
void h_dtor(C* v) { v->~C(); }
void h_clear(C* v) { v->clear(); }
void h_reserve(C* v, u64 n) { v->reserve(n); }
void h_grow(C* v) { v->grow(); }
E* h_push(C* v, E* t) { return &v->push(move(*t)); }
E* h_emplace_move(C* v, E* t) { return &v->emplace(move(*t)); }
void h_pop(C* v) { v->pop(); }
E* h_front(C* v) { return &v->front(); }
const E* h_cfront(const C* v) { return &v->front(); }
E* h_back(C* v) { return &v->back(); }
const E* h_cback(const C* v) { return &v->back(); }
E* h_penultimate(C* v) { return &v->penultimate(); }
const E* h_cpenultimate(const C* v) { return &v->penultimate(); }
E* h_index(C* v, u64 i) { return &(*v)[i]; }
const E* h_cindex(const C* v, u64 i) { return &(*v)[i]; }
bool h_empty(const C* v) { return v->empty(); }
bool h_full(const C* v) { return v->full(); }
u64 h_length(const C* v) { return v->length(); }
void h_clone(C* out, const C* s) { new(out) C{s->clone()}; }
#ifdef HAS_COPY
void h_push_copy(C* v, const E* t) { v->push(*t); }
#endif
void h_init3(C* out, E* a, E* b, E* c) { new(out) C(move(*a), move(*b), move(*c)); }
// iteration: the address reached after n steps from begin(), and whether that is the end
E* h_iter(C* v, u64 n) {
    auto it = v->begin();
    for(u64 i = 0; i < n; i++) ++it;
    return &*it;
}
const E* h_citer(const C* v, u64 n) {
    auto it = v->begin();
    for(u64 i = 0; i < n; i++) ++it;
    return &*it;
}
bool h_iter_end(C* v, u64 n) {
    auto it = v->begin();
    for(u64 i = 0; i < n; i++) ++it;
    return it == v->end();
}
bool h_erase_first(C* v, const E* x) { return v->erase_first(*x); }
}
