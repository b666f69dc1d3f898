// every operation of vmath.h on memory the check fills with symbolic components
#include <rpp/vmath.h>
#include <rpp/impl/simd.cpp>
#include <rpp/impl/math.cpp>
#include <rpp/impl/vmath.cpp>
using namespace rpp;
using namespace rpp::Math;

#define V(T, N) Vect<T, N>
// operations every component type has
#define OPS(T, N, S)                                                                               \
    extern "C" {                                                                                   \
    void h_add_##S(const V(T, N) * a, const V(T, N) * b, V(T, N) * o) { *o = *a + *b; }            \
    void h_sub_##S(const V(T, N) * a, const V(T, N) * b, V(T, N) * o) { *o = *a - *b; }            \
    void h_mul_##S(const V(T, N) * a, const V(T, N) * b, V(T, N) * o) { *o = *a * *b; }            \
    void h_div_##S(const V(T, N) * a, const V(T, N) * b, V(T, N) * o) { *o = *a / *b; }            \
    void h_adds_##S(const V(T, N) * a, const T* s, V(T, N) * o) { *o = *a + *s; }                  \
    void h_subs_##S(const V(T, N) * a, const T* s, V(T, N) * o) { *o = *a - *s; }                  \
    void h_muls_##S(const V(T, N) * a, const T* s, V(T, N) * o) { *o = *a * *s; }                  \
    void h_divs_##S(const V(T, N) * a, const T* s, V(T, N) * o) { *o = *a / *s; }                  \
    void h_sadd_##S(const V(T, N) * a, const T* s, V(T, N) * o) { *o = *s + *a; }                  \
    void h_ssub_##S(const V(T, N) * a, const T* s, V(T, N) * o) { *o = *s - *a; }                  \
    void h_smul_##S(const V(T, N) * a, const T* s, V(T, N) * o) { *o = *s * *a; }                  \
    void h_sdiv_##S(const V(T, N) * a, const T* s, V(T, N) * o) { *o = *s / *a; }                  \
    void h_iadd_##S(V(T, N) * t, const V(T, N) * b, V(T, N) * o) { *o = (*t += *b); }              \
    void h_isub_##S(V(T, N) * t, const V(T, N) * b, V(T, N) * o) { *o = (*t -= *b); }              \
    void h_imul_##S(V(T, N) * t, const V(T, N) * b, V(T, N) * o) { *o = (*t *= *b); }              \
    void h_idiv_##S(V(T, N) * t, const V(T, N) * b, V(T, N) * o) { *o = (*t /= *b); }              \
    void h_iadds_##S(V(T, N) * t, const T* s, V(T, N) * o) { *o = (*t += *s); }                    \
    void h_isubs_##S(V(T, N) * t, const T* s, V(T, N) * o) { *o = (*t -= *s); }                    \
    void h_imuls_##S(V(T, N) * t, const T* s, V(T, N) * o) { *o = (*t *= *s); }                    \
    void h_idivs_##S(V(T, N) * t, const T* s, V(T, N) * o) { *o = (*t /= *s); }                    \
    bool h_eq_##S(const V(T, N) * a, const V(T, N) * b) { return *a == *b; }                       \
    bool h_ne_##S(const V(T, N) * a, const V(T, N) * b) { return *a != *b; }                       \
    void h_norm2_##S(const V(T, N) * a, T* o) { *o = a->norm2(); }                                 \
    void h_vmin_##S(const V(T, N) * a, T* o) { *o = a->min(); }                                    \
    void h_vmax_##S(const V(T, N) * a, T* o) { *o = a->max(); }                                    \
    void h_min_##S(const V(T, N) * a, const V(T, N) * b, V(T, N) * o) { *o = Math::min(*a, *b); }  \
    void h_max_##S(const V(T, N) * a, const V(T, N) * b, V(T, N) * o) { *o = Math::max(*a, *b); }  \
    void h_clamp_##S(const V(T, N) * a, const V(T, N) * b, const V(T, N) * c, V(T, N) * o) {       \
        *o = Math::clamp(*a, *b, *c);                                                              \
    }                                                                                              \
    void h_dot_##S(const V(T, N) * a, const V(T, N) * b, T* o) { *o = Math::dot(*a, *b); }         \
    void h_splat_##S(const T* s, V(T, N) * o) { *o = V(T, N){*s}; }                                \
    void h_zero_##S(V(T, N) * o) { *o = V(T, N){}; }                                               \
    void h_at_##S(const V(T, N) * a, V(T, N) * o) {                                                \
        for(u64 i = 0; i < N; i++) (*o)[i] = (*a)[i];                                              \
    }                                                                                              \
    void h_iter_##S(const V(T, N) * a, V(T, N) * o) {                                              \
        u64 i = 0;                                                                                 \
        for(T v : *a) (*o)[i++] = v;                                                               \
    }                                                                                              \
    }
// operations of signed and floating types
#define SOPS(T, N, S)                                                                              \
    OPS(T, N, S)                                                                                   \
    extern "C" {                                                                                   \
    void h_abs_##S(const V(T, N) * a, V(T, N) * o) { *o = a->abs(); }                              \
    void h_abs2_##S(const V(T, N) * a, V(T, N) * o) { *o = Math::abs(*a); }                        \
    void h_neg_##S(NEGC V(T, N) * a, V(T, N) * o) { *o = -*a; }                                    \
    }
// operations of floating types
#define FOPS(T, N, S)                                                                              \
    SOPS(T, N, S)                                                                                  \
    extern "C" {                                                                                   \
    void h_normalize_##S(V(T, N) * t, V(T, N) * o) { *o = t->normalize(); }                        \
    void h_normalized_##S(const V(T, N) * a, V(T, N) * o) { *o = Math::normalize(*a); }            \
    void h_unit_##S(const V(T, N) * a, V(T, N) * o) { *o = a->unit(); }                            \
    void h_norm_##S(const V(T, N) * a, T* o) { *o = a->norm(); }                                   \
    void h_floor_##S(NEGC V(T, N) * a, V(T, N) * o) { *o = a->floor(); }                           \
    void h_ceil_##S(NEGC V(T, N) * a, V(T, N) * o) { *o = a->ceil(); }                             \
    void h_lerp_##S(const V(T, N) * a, const V(T, N) * b, const T* s, V(T, N) * o) {               \
        *o = Math::lerp(*a, *b, *s);                                                               \
    }                                                                                              \
    }
#define POPS(T, N, S)                                                                              \
    extern "C" {                                                                                   \
    void h_proj_##S(const V(T, N) * a, V(T, (N - 1)) * o) { *o = a->proj(); }                      \
    void h_extend_##S(const V(T, (N - 1)) * a, const T* s, V(T, N) * o) { *o = V(T, N){*a, *s}; }  \
    }
#define NEGC
FOPS(f32, 2, f2)
FOPS(f32, 3, f3)
FOPS(f32, 4, f4)
FOPS(f32, 5, f5)
FOPS(f64, 3, d3)
FOPS(f64, 4, d4)
SOPS(i32, 2, i2)
SOPS(i32, 3, i3)
SOPS(i32, 4, i4)
OPS(u32, 3, u3)
OPS(u32, 4, u4)
POPS(f32, 3, f3)
POPS(f32, 4, f4)
POPS(f32, 5, f5)
POPS(f64, 4, d4)

extern "C" {
void h_cross(const Vec3* a, const Vec3* b, Vec3* o) { *o = cross(*a, *b); }
void h_make2(const f32* x, const f32* y, Vec2* o) { *o = Vec2{*x, *y}; }
void h_make3(const f32* x, const f32* y, const f32* z, Vec3* o) { *o = Vec3{*x, *y, *z}; }
void h_make4(const f32* x, const f32* y, const f32* z, const f32* w, Vec4* o) { *o = Vec4{*x, *y, *z, *w}; }
void h_xyz(const Vec4* a, Vec3* o) { *o = a->xyz(); }
void h_yzw(const Vec4* a, Vec3* o) { *o = a->yzw(); }
void h_xy4(const Vec4* a, Vec2* o) { *o = a->xy(); }
void h_yz4(const Vec4* a, Vec2* o) { *o = a->yz(); }
void h_zw4(const Vec4* a, Vec2* o) { *o = a->zw(); }
void h_xy3(const Vec3* a, Vec2* o) { *o = a->xy(); }
void h_yz3(const Vec3* a, Vec2* o) { *o = a->yz(); }
void h_named4(const Vec4* a, Vec4* o) { o->x = a->x; o->y = a->y; o->z = a->z; o->w = a->w; }

// F32x4
using F = SIMD::F32x4;
void h_simd_set(const f32* x, const f32* y, const f32* z, const f32* w, F* o) { *o = F::set(*x, *y, *z, *w); }
void h_simd_set1(const f32* x, F* o) { *o = F::set1(*x); }
void h_simd_zero(F* o) { *o = F::zero(); }
void h_simd_one(F* o) { *o = F::one(); }
void h_simd_add(const F* a, const F* b, F* o) { *o = F::add(*a, *b); }
void h_simd_sub(const F* a, const F* b, F* o) { *o = F::sub(*a, *b); }
void h_simd_mul(const F* a, const F* b, F* o) { *o = F::mul(*a, *b); }
void h_simd_div(const F* a, const F* b, F* o) { *o = F::div(*a, *b); }
void h_simd_min(const F* a, const F* b, F* o) { *o = F::min(*a, *b); }
void h_simd_max(const F* a, const F* b, F* o) { *o = F::max(*a, *b); }
void h_simd_floor(const F* a, F* o) { *o = F::floor(*a); }
void h_simd_ceil(const F* a, F* o) { *o = F::ceil(*a); }
void h_simd_abs(const F* a, F* o) { *o = F::abs(*a); }
void h_simd_dp(const F* a, const F* b, f32* o) { *o = F::dp(*a, *b); }
bool h_simd_eq(const F* a, const F* b) { return F::cmpeq_all(*a, *b); }

// matrices
void h_m_ident(Mat4* o) { *o = Mat4{}; }
void h_m_I(Mat4* o) { *o = Mat4::I; }
void h_m_zero(Mat4* o) { *o = Mat4::zero; }
void h_m_swap(Mat4* o) { *o = Mat4::swap_x_z; }
void h_m_add(const Mat4* a, const Mat4* b, Mat4* o) { *o = *a + *b; }
void h_m_sub(const Mat4* a, const Mat4* b, Mat4* o) { *o = *a - *b; }
void h_m_mul(const Mat4* a, const Mat4* b, Mat4* o) { *o = *a * *b; }
void h_m_adds(const Mat4* a, const f32* s, Mat4* o) { *o = *a + *s; }
void h_m_subs(const Mat4* a, const f32* s, Mat4* o) { *o = *a - *s; }
void h_m_muls(const Mat4* a, const f32* s, Mat4* o) { *o = *a * *s; }
void h_m_divs(const Mat4* a, const f32* s, Mat4* o) { *o = *a / *s; }
bool h_m_eq(const Mat4* a, const Mat4* b) { return *a == *b; }
bool h_m_ne(const Mat4* a, const Mat4* b) { return *a != *b; }
void h_m_v4(const Mat4* a, const Vec4* v, Vec4* o) { *o = *a * *v; }
void h_m_v3(const Mat4* a, const Vec3* v, Vec3* o) { *o = *a * *v; }
void h_m_rot(const Mat4* a, const Vec3* v, Vec3* o) { *o = a->rotate(*v); }
void h_m_T(const Mat4* a, Mat4* o) { *o = a->T(); }
void h_m_transpose(const Mat4* a, Mat4* o) { *o = Mat4::transpose(*a); }
void h_m_inv(const Mat4* a, Mat4* o) { *o = a->inverse(); }
void h_m_inverse(const Mat4* a, Mat4* o) { *o = Mat4::inverse(*a); }
void h_m_at(const Mat4* a, Mat4* o) {
    for(u64 i = 0; i < 4; i++) (*o)[i] = (*a)[i];
}
void h_m_cols(const Vec4* a, const Vec4* b, const Vec4* c, const Vec4* d, Mat4* o) { *o = Mat4{*a, *b, *c, *d}; }
void h_m_iter(const Mat4* a, Mat4* o) {
    u64 i = 0;
    for(const Vec4& v : *a) (*o)[i++] = v;
}
void h_m_scale(const Vec3* v, Mat4* o) { *o = Mat4::scale(*v); }
void h_m_translate(const Vec3* v, Mat4* o) { *o = Mat4::translate(*v); }
void h_m_rotate(const f32* s, const Vec3* v, Mat4* o) { *o = Mat4::rotate(*s, *v); }
void h_m_look(const Vec3* a, const Vec3* b, const Vec3* c, Mat4* o) { *o = Mat4::look_at(*a, *b, *c); }
void h_m_ortho(const f32* l, const f32* r, const f32* b, const f32* t, const f32* n, const f32* f, Mat4* o) {
    *o = Mat4::ortho(*l, *r, *b, *t, *n, *f);
}
void h_m_proj(const f32* fov, const f32* ar, const f32* n, Mat4* o) { *o = Mat4::proj(*fov, *ar, *n); }
void h_m_yto(const Vec3* v, Mat4* o) { *o = Mat4::rotate_y_to(*v); }
void h_m_zto(const Vec3* v, Mat4* o) { *o = Mat4::rotate_z_to(*v); }

// quaternions
void h_q_ident(Quat* o) { *o = Quat{}; }
void h_q_make(const Vec3* v, const f32* s, Quat* o) { *o = Quat{*v, *s}; }
void h_q_from4(const Vec4* v, Quat* o) { *o = Quat{*v}; }
void h_q_axis(const Vec3* v, const f32* s, Quat* o) { *o = Quat::axis_angle(*v, *s); }
void h_q_euler(const Vec3* v, Quat* o) { *o = Quat::euler(*v); }
void h_q_conj(const Quat* a, Quat* o) { *o = a->conjugate(); }
void h_q_inv(const Quat* a, Quat* o) { *o = a->inverse(); }
void h_q_complex(const Quat* a, Vec3* o) { *o = a->complex(); }
void h_q_real(const Quat* a, f32* o) { *o = a->real(); }
void h_q_norm2(const Quat* a, f32* o) { *o = a->norm2(); }
void h_q_norm(const Quat* a, f32* o) { *o = a->norm(); }
void h_q_unit(const Quat* a, Quat* o) { *o = a->unit(); }
void h_q_mul(const Quat* a, const Quat* b, Quat* o) { *o = *a * *b; }
void h_q_muls(const Quat* a, const f32* s, Quat* o) { *o = *a * *s; }
void h_q_add(const Quat* a, const Quat* b, Quat* o) { *o = *a + *b; }
void h_q_sub(const Quat* a, const Quat* b, Quat* o) { *o = *a - *b; }
void h_q_neg(const Quat* a, Quat* o) { *o = -*a; }
void h_q_mat(const Quat* a, Mat4* o) { *o = a->to_mat(); }
void h_q_rot(const Quat* a, const Vec3* v, Vec3* o) { *o = a->rotate(*v); }
bool h_q_eq(const Quat* a, const Quat* b) { return *a == *b; }
bool h_q_ne(const Quat* a, const Quat* b) { return *a != *b; }
void h_q_at(const Quat* a, Quat* o) {
    for(int i = 0; i < 4; i++) (*o)[i] = (*a)[i];
}

// boxes
void h_b_first(const Vec3* p, BBox* o) { BBox b; b.enclose(*p); *o = b; }
void h_b_refirst(BBox* t, const Vec3* p) { t->reset(); t->enclose(*p); }
bool h_b_fresh() { return BBox{}.empty(); }
void h_b_fresharea(f32* o) { *o = BBox{}.surface_area(); }
void h_b_make(const Vec3* a, const Vec3* b, BBox* o) { *o = BBox{*a, *b}; }
void h_b_point(BBox* t, const Vec3* p) { t->enclose(*p); }
void h_b_box(BBox* t, const BBox* b) { t->enclose(*b); }
void h_b_center(const BBox* a, Vec3* o) { *o = a->center(); }
bool h_b_isempty(const BBox* a) { return a->empty(); }
void h_b_area(const BBox* a, f32* o) { *o = a->surface_area(); }
// one axis of the picture runs along a diagonal of the box, so every corner is the extreme of one of these
#define PROJ(N, A, B, C)                                                                           \
    void h_b_projx##N(const BBox* t, Vec2* o) {                                                    \
        Mat4 m{Vec4{A, 0.0f, 0.0f, 0.0f}, Vec4{B, 0.0f, 0.0f, 0.0f}, Vec4{C, 0.0f, 0.0f, 0.0f}, Vec4{0.0f, 0.0f, 1.0f, 1.0f}}; \
        t->project(m, o[0], o[1]);                                                                 \
    }                                                                                              \
    void h_b_projy##N(const BBox* t, Vec2* o) {                                                    \
        Mat4 m{Vec4{0.0f, A, 0.0f, 0.0f}, Vec4{0.0f, B, 0.0f, 0.0f}, Vec4{0.0f, C, 0.0f, 0.0f}, Vec4{0.0f, 0.0f, 1.0f, 1.0f}}; \
        t->project(m, o[0], o[1]);                                                                 \
    }                                                                                              \
    void h_b_projz##N(const BBox* t, Vec2* o) {                                                    \
        Mat4 m{Vec4{0.0f, 0.0f, A, 0.0f}, Vec4{0.0f, 0.0f, B, 0.0f}, Vec4{0.0f, 0.0f, C, 0.0f}, Vec4{7.0f, 9.0f, 0.0f, 1.0f}}; \
        t->project(m, o[0], o[1]);                                                                 \
    }
PROJ(0, 1.0f, 1.0f, 1.0f)
PROJ(1, 1.0f, 1.0f, -1.0f)
PROJ(2, 1.0f, -1.0f, 1.0f)
PROJ(3, 1.0f, -1.0f, -1.0f)
void h_b_xform(BBox* t, const Mat4* m) { t->transform(*m); }

// scalar helpers
void h_lerp(const f32* a, const f32* b, const f32* s, f32* o) { *o = Math::lerp(*a, *b, *s); }
void h_clamp(const f32* a, const f32* b, const f32* c, f32* o) { *o = Math::clamp(*a, *b, *c); }
void h_min(const f32* a, const f32* b, f32* o) { *o = Math::min(*a, *b); }
void h_max(const f32* a, const f32* b, f32* o) { *o = Math::max(*a, *b); }
void h_minl(const f32* a, const f32* b, const f32* c, f32* o) { *o = Math::min({*a, *b, *c}); }
void h_maxl(const f32* a, const f32* b, const f32* c, f32* o) { *o = Math::max({*a, *b, *c}); }
void h_sign(const f32* a, f32* o) { *o = Math::sign(*a); }
void h_abs(const f32* a, f32* o) { *o = Math::abs(*a); }
void h_smooth(const f32* a, const f32* b, const f32* s, f32* o) { *o = Math::smoothstep(*a, *b, *s); }
void h_radians(const f32* a, f32* o) { *o = Math::radians(*a); }
void h_degrees(const f32* a, f32* o) { *o = Math::degrees(*a); }
void h_hypot(const f32* a, const f32* b, f32* o) { *o = Math::hypot(*a, *b); }
void h_atan2(const f32* a, const f32* b, f32* o) { *o = Math::atan2(*a, *b); }
void h_powf(const f32* a, const f32* b, f32* o) { *o = Math::pow(*a, *b); }
#define FN(f) \
    void h_fn_##f(const f32* a, f32* o) { *o = Math::f(*a); } \
    void h_fnd_##f(const f64* a, f64* o) { *o = Math::f(*a); }
FN(cos) FN(sin) FN(tan) FN(acos) FN(asin) FN(atan) FN(exp) FN(floor) FN(ceil) FN(round) FN(sqrt)
}
