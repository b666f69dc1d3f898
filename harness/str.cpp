#include "tok.h"
using C = String<Al<0>>;
using D = String<Al<1>>;
using V = String_View;
struct L_c { C c; };
struct L_v { V v; };
u64 force_layout = sizeof(L_c) + sizeof(L_v);
extern "C" {
void h_ctor(C* out) { new(out) C{}; }
void h_ctor_cap(C* out, u64 n) { new(out) C{n}; }
void h_ctor_move(C* out, C* s) { new(out) C{move(*s)}; }
void h_assign_move(C* v, C* s) { *v = move(*s); }
void h_dtor(C* v) { v->~C(); }
void h_clone(C* out, const C* s) { new(out) C{s->clone()}; }
void h_set_length(C* s, u64 n) { s->set_length(n); }
u8* h_index(C* s, u64 i) { return &(*s)[i]; }
const u8* h_cindex(const C* s, u64 i) { return &(*s)[i]; }
void h_view(const C* s, V* out) { *out = s->view(); }
void h_sub(const C* s, u64 a, u64 b, V* out) { *out = s->sub(a, b); }
u64 h_write_char(C* s, u64 i, char c) { return s->write(i, c); }
u64 h_write_string(C* s, u64 i, const C* t) { return s->write(i, *t); }
u64 h_write_view(C* s, u64 i, const V* t) { return s->write(i, *t); }
u8* h_begin(C* s) { return s->begin(); }
u8* h_end(C* s) { return s->end(); }
const u8* h_cbegin(const C* s) { return s->begin(); }
const u8* h_cend(const C* s) { return s->end(); }
u8* h_data(C* s) { return s->data(); }
const u8* h_cdata(const C* s) { return s->data(); }
u64 h_length(const C* s) { return s->length(); }
u64 h_capacity(const C* s) { return s->capacity(); }
bool h_empty(const C* s) { return s->empty(); }
void h_terminate(C* out, const C* s) { new(out) C{s->terminate<Al<0>>()}; }
void h_append(C* out, const C* s, const C* t) { new(out) C{s->append<Al<0>>(*t)}; }
void h_v_string(C* out, const V* v) { new(out) C{v->string<Al<0>>()}; }
void h_v_terminate(C* out, const V* v) { new(out) C{v->terminate<Al<0>>()}; }
void h_v_append(C* out, const V* a, const V* b) { new(out) C{a->append<Al<0>>(*b)}; }
void h_v_sub(const V* v, u64 a, u64 b, V* out) { *out = v->sub(a, b); }
const u8* h_v_index(const V* v, u64 i) { return &(*v)[i]; }
const u8* h_v_begin(const V* v) { return v->begin(); }
const u8* h_v_end(const V* v) { return v->end(); }
const u8* h_v_data(const V* v) { return v->data(); }
u64 h_v_length(const V* v) { return v->length(); }
bool h_v_empty(const V* v) { return v->empty(); }
void h_v_clone(const V* v, V* out) { *out = v->clone(); }
void h_v_suffix(const V* v, V* out) { *out = v->file_suffix(); }
void h_v_extension(const V* v, V* out) { *out = v->file_extension(); }
void h_v_remove_suffix(const V* v, V* out) { *out = v->remove_file_suffix(); }
bool h_eq_vv(const V* a, const V* b) { return *a == *b; }
bool h_eq_sv(const C* a, const V* b) { return *a == *b; }
bool h_eq_vs(const V* a, const C* b) { return *a == *b; }
bool h_eq_ss(const C* a, const C* b) { return *a == *b; }
bool h_lt_vv(const V* a, const V* b) { return *a < *b; }
bool h_lt_ss(const C* a, const C* b) { return *a < *b; }
}
