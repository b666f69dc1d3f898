#include "tok.h"
#ifndef ELEM
#define ELEM Tok
#endif
using E = ELEM;
using C = Vec<E, Al<0>>;
struct L_c { C c; };
u64 force_layout = sizeof(L_c);
extern "C" {
void h_ctor(C* out) { new(out) C{}; }
void h_ctor_cap(C* out, u64 n) { new(out) C(n); }
void h_ctor_move(C* out, C* s) { new(out) C{move(*s)}; }
void h_assign_move(C* v, C* s) { *v = move(*s); }
void h_assign_self(C* v) { *v = move(*v); }
void h_dtor(C* v) { v->~C(); }
void h_clear(C* v) { v->clear(); }
void h_reserve(C* v, u64 n) { v->reserve(n); }
void h_grow(C* v) { v->grow(); }
void h_push(C* v, E* t) { v->push(move(*t)); }
E* h_push_ref(C* v, E* t) { return &v->push(move(*t)); }
E* h_emplace_move(C* v, E* t) { return &v->emplace(move(*t)); }
void h_pop(C* v) { v->pop(); }
E* h_front(C* v) { return &v->front(); }
const E* h_cfront(const C* v) { return &v->front(); }
E* h_back(C* v) { return &v->back(); }
const E* h_cback(const C* v) { return &v->back(); }
E* h_index(C* v, u64 i) { return &(*v)[i]; }
const E* h_cindex(const C* v, u64 i) { return &(*v)[i]; }
bool h_empty(const C* v) { return v->empty(); }
bool h_full(const C* v) { return v->full(); }
u64 h_length(const C* v) { return v->length(); }
u64 h_capacity(const C* v) { return v->capacity(); }
u64 h_bytes(const C* v) { return v->bytes(); }
E* h_begin(C* v) { return v->begin(); }
E* h_end(C* v) { return v->end(); }
const E* h_cbegin(const C* v) { return v->begin(); }
const E* h_cend(const C* v) { return v->end(); }
E* h_data(C* v) { return v->data(); }
const E* h_cdata(const C* v) { return v->data(); }
void h_slice(C* v, Slice<E>* out) { *out = v->slice(); }
void h_cslice(const C* v, Slice<const E>* out) { *out = v->slice(); }
E* h_slice_index(C* v, u64 i) { return &v->slice()[i]; }
void h_clone(C* out, const C* s) { new(out) C{s->clone()}; }
#ifdef HAS_DEFAULT
void h_make(C* out, u64 n) { new(out) C{C::make(n)}; }
void h_resize(C* v, u64 n) { v->resize(n); }
void h_extend(C* v, u64 n) { v->extend(n); }
#endif
#ifdef HAS_COPY
void h_push_copy(C* v, const E* t) { v->push(*t); }
void h_push_copy_self(C* v, u64 i) { v->push(static_cast<const C&>(*v)[i]); }
#endif
void h_init3(C* out, E* a, E* b, E* c) { new(out) C(move(*a), move(*b), move(*c)); }
}
