#include "tok.h"
using T0 = TokN<0>;
using T1 = TokN<1>;
extern "C" u64 v_call(u64 which, void* self, u64 x, u64 y) noexcept;
extern "C" u64 v_callm(void* self, void* arg) noexcept;
struct F0 {
    T0 t;
    u64 operator()(u64 x, u64 y) { return v_call(0, &t, x, y); }
};
struct F1 {
    u64 pad;
    T1 t;
    u64 operator()(u64 x, u64 y) { return v_call(1, &t, x, y); }
};
struct F2 {     // trivially movable
    u64 a, b;
    u64 operator()(u64 x, u64 y) { return v_call(2, reinterpret_cast<void*>(a), x, y); }
};
struct M0 {
    T0 t;
    u64 operator()(T1 arg) { return v_callm(&t, &arg); }
};
struct M1 {
    T0 t;
    u64 operator()(T1&& arg) { return v_callm(&t, &arg); }
};
using C = Function<u64(u64, u64)>;
using CM = Function<u64(T1)>;
using CR = Function<u64(T1&&)>;
struct L_c { C c; };
struct L_f0 { F0 f; };
struct L_f1 { F1 f; };
u64 force_layout = sizeof(L_c) + sizeof(L_f0) + sizeof(L_f1);
extern "C" {
void h_f0(C* out, T0* e) { new(out) C{F0{move(*e)}}; }
void h_f1(C* out, T1* e) { new(out) C{F1{5, move(*e)}}; }
void h_f2(C* out, u64 a, u64 b) { new(out) C{F2{a, b}}; }
void h_move(C* out, C* s) { new(out) C{move(*s)}; }
void h_assign(C* v, C* s) { *v = move(*s); }
void h_assign_new(C* v, T0* e) { *v = C{F0{move(*e)}}; }
void h_dtor(C* v) { v->~C(); }
u64 h_call(C* v, u64 x, u64 y) { return (*v)(x, y); }
u64 h_callm(T0* c, T1* a) { CM f{M0{move(*c)}}; return f(move(*a)); }
u64 h_callr(T0* c, T1* a) { CR f{M1{move(*c)}}; return f(move(*a)); }
void h_vec(T0* c) { Vec<C, Al<0>> v; v.push(C{F0{move(*c)}}); }
}
