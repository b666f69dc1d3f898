// integer and scalar helpers
#include <rpp/base.h>
#include <rpp/math.h>
using namespace rpp;
#include <rpp/impl/math.cpp>
namespace M = rpp::Math;
extern "C" {
u32 h_popcount_u32(u32 x) { return M::popcount(x); }
u64 h_popcount_u64(u64 x) { return M::popcount(x); }
u32 h_ctlz_u32(u32 x) { return M::ctlz(x); }
u64 h_ctlz_u64(u64 x) { return M::ctlz(x); }
u32 h_log2_u32(u32 x) { return M::log2(x); }
u64 h_log2_u64(u64 x) { return M::log2(x); }
u32 h_prev_u32(u32 x) { return M::prev_pow2(x); }
u64 h_prev_u64(u64 x) { return M::prev_pow2(x); }
u32 h_next_u32(u32 x) { return M::next_pow2(x); }
u64 h_next_u64(u64 x) { return M::next_pow2(x); }
i32 h_abs_i32(i32 x) { return M::abs(x); }
i64 h_abs_i64(i64 x) { return M::abs(x); }
u32 h_alignp_u32(u32 x, u32 a) { return M::align_pow2(x, a); }
u64 h_alignp_u64(u64 x, u64 a) { return M::align_pow2(x, a); }
u32 h_downp_u32(u32 x, u32 a) { return M::align_down_pow2(x, a); }
u64 h_downp_u64(u64 x, u64 a) { return M::align_down_pow2(x, a); }
u32 h_align_u32(u32 x, u32 a) { return M::align(x, a); }
u64 h_align_u64(u64 x, u64 a) { return M::align(x, a); }
u32 h_down_u32(u32 x, u32 a) { return M::align_down(x, a); }
u64 h_down_u64(u64 x, u64 a) { return M::align_down(x, a); }
u64 h_kb(u64 x) { return M::KB(x); }
u64 h_mb(u64 x) { return M::MB(x); }
u64 h_gb(u64 x) { return M::GB(x); }
u8 h_pow_u8(u8 x, u8 e) { return M::pow(x, e); }
u32 h_pow_u32(u32 x, u32 e) { return M::pow(x, e); }
u64 h_pow_u64(u64 x, u64 e) { return M::pow(x, e); }
i32 h_pow_i32(i32 x, i32 e) { return M::pow(x, e); }
i64 h_pow_i64(i64 x, i64 e) { return M::pow(x, e); }
#define S1(n, f) f32 h_##n##_f32(f32 x) { return f(x); } f64 h_##n##_f64(f64 x) { return f(x); }
#define S2(n, f) f32 h_##n##_f32(f32 x, f32 y) { return f(x, y); } f64 h_##n##_f64(f64 x, f64 y) { return f(x, y); }
#define S3(n, f) f32 h_##n##_f32(f32 x, f32 y, f32 z) { return f(x, y, z); } f64 h_##n##_f64(f64 x, f64 y, f64 z) { return f(x, y, z); }
S1(cos, M::cos) S1(sin, M::sin) S1(tan, M::tan) S1(acos, M::acos) S1(asin, M::asin) S1(atan, M::atan) S2(atan2, M::atan2) S2(hypot, M::hypot)
S2(pow, M::pow) S1(exp, M::exp) S1(floor, M::floor) S1(ceil, M::ceil) S1(round, M::round) S1(fabs, M::abs) S1(sqrt, M::sqrt) S1(sign, M::sign)
S1(radians, M::radians) S1(degrees, M::degrees) S3(lerp, M::lerp) S3(clamp, M::clamp) S2(min, M::min) S2(max, M::max)
f32 h_frac_f32(f32 x) { return M::frac(x); }
f32 h_smoothstep_f32(f32 x, f32 y, f32 z) { return M::smoothstep(x, y, z); }
i32 h_min_i32(i32 x, i32 y) { return M::min(x, y); }
i32 h_max_i32(i32 x, i32 y) { return M::max(x, y); }
i32 h_clamp_i32(i32 x, i32 y, i32 z) { return M::clamp(x, y, z); }
u64 h_min_u64(u64 x, u64 y) { return M::min(x, y); }
u64 h_max_u64(u64 x, u64 y) { return M::max(x, y); }
i32 h_min3_i32(i32 x, i32 y, i32 z) { return M::min({x, y, z}); }
i32 h_max3_i32(i32 x, i32 y, i32 z) { return M::max({x, y, z}); }
f32 h_min3_f32(f32 x, f32 y, f32 z) { return M::min({x, y, z}); }
f32 h_max3_f32(f32 x, f32 y, f32 z) { return M::max({x, y, z}); }
}
