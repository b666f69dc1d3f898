// the pseudo-random stream of rng.h
#include <rpp/base.h>
#include <rpp/rng.h>
using namespace rpp;
using RNG::Stream;

struct Own {
    u64 id = 0;
    Own() = default;
    Own(Own&& o) noexcept : id(o.id) { o.id = 0; }
    Own& operator=(Own&& o) noexcept {
        id = o.id;
        o.id = 0;
        return *this;
    }
    ~Own() { id = 0; }
};

extern "C" {
u64 h_next(Stream* s) { return (*s)(); }
void h_make(Stream* s, u64 seed) { new(s) Stream{seed}; }
void h_seed(Stream* s, u64 seed) { s->seed(seed); }
u64 h_hash(u64 x) { return hash(x); }
f32 h_unit32(Stream* s) { return s->unit<f32>(); }
f64 h_unit64(Stream* s) { return s->unit<f64>(); }
bool h_flip32_always(Stream* s) { return s->coin_flip(1.0f); }
bool h_flip32_never(Stream* s) { return s->coin_flip(0.0f); }
bool h_flip64_always(Stream* s) { return s->coin_flip(1.0); }
bool h_flip64_never(Stream* s) { return s->coin_flip(0.0); }
#define R(T) \
    T h_range_##T(Stream* s, T lo, T hi) { return s->range(lo, hi); } \
    T h_integer_##T(Stream* s) { return s->integer<T>(); }
R(u8) R(u16) R(u32) R(u64) R(i8) R(i16) R(i32) R(i64)
void h_shuffle(Stream* s, Vec<u64>* v) { s->shuffle(*v); }
void h_shuffle_own(Stream* s, Vec<Own>* v) { s->shuffle(*v); }
}
struct L_vec {
    Vec<u64> v;
};
u64 force_layout = sizeof(L_vec);
