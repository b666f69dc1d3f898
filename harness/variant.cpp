#include "tok.h"
#include <rpp/variant.h>
extern "C" u64 v_seen(u64 which, const void* p) noexcept;
template<typename... Ts>
struct Ops {
    using V = Variant<Ts...>;
    static u64 see(V* v) {
        return v->match(Overload{[](Ts& t) { return v_seen(Index_Of<Ts, Ts...>, &t); }...});
    }
    static u64 csee(const V* v) {
        return v->match(Overload{[](const Ts& t) { return v_seen(Index_Of<Ts, Ts...>, &t); }...});
    }
    static u64 rsee(V* v) {
        return move(*v).match(Overload{[](Ts&& t) { return v_seen(Index_Of<Ts, Ts...>, &t); }...});
    }
};
using T0 = TokN<0>; using T1 = TokN<1>; using T2 = TokN<2>; using T3 = TokN<3>; using T4 = TokN<4>;
using T5 = TokN<5>; using T6 = TokN<6>; using T7 = TokN<7>; using T8 = TokN<8>; using T9 = TokN<9>;
using V1 = Variant<T0>;
using V3 = Variant<T0, T1, T2>;
using V8 = Variant<T0, T1, T2, T3, T4, T5, T6, T7>;
using V9 = Variant<T0, T1, T2, T3, T4, T5, T6, T7, T8>;
struct L_v1 { V1 v; };
struct L_v3 { V3 v; };
struct L_v8 { V8 v; };
struct L_v9 { V9 v; };
u64 force_layout = sizeof(L_v1) + sizeof(L_v3) + sizeof(L_v8) + sizeof(L_v9);
extern "C" {
#define ALL(P, V, OPS)                                                                             \
    void h_##P##_ctor_move(V* out, V* s) { new(out) V{move(*s)}; }                                 \
    void h_##P##_assign_move(V* v, V* s) { *v = move(*s); }                                        \
    void h_##P##_dtor(V* v) { v->~V(); }                                                           \
    void h_##P##_clone(V* out, const V* s) { new(out) V{s->clone()}; }                             \
    u64 h_##P##_match(V* v) { return OPS::see(v); }                                                \
    u64 h_##P##_cmatch(const V* v) { return OPS::csee(v); }                                        \
    u64 h_##P##_rmatch(V* v) { return OPS::rsee(v); }                                              \
    u64 h_##P##_index(const V* v) { return v->index(); }
#define FROM(P, V, N) void h_##P##_from##N(V* out, T##N* e) { new(out) V{move(*e)}; }              \
    void h_##P##_assign##N(V* v, T##N* e) { *v = V{move(*e)}; }
using O1 = Ops<T0>;
using O3 = Ops<T0, T1, T2>;
using O8 = Ops<T0, T1, T2, T3, T4, T5, T6, T7>;
using O9 = Ops<T0, T1, T2, T3, T4, T5, T6, T7, T8>;
ALL(v1, V1, O1)
ALL(v3, V3, O3)
ALL(v8, V8, O8)
ALL(v9, V9, O9)
FROM(v1, V1, 0)
FROM(v3, V3, 0) FROM(v3, V3, 1) FROM(v3, V3, 2)
FROM(v8, V8, 0) FROM(v8, V8, 5) FROM(v8, V8, 7)
FROM(v9, V9, 0) FROM(v9, V9, 4) FROM(v9, V9, 8)
}
