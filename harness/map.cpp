// a hash map over opaque keys and values: only equality and the hash of a key are known to exist
#include "tok.h"
#include <rpp/map.h>
using namespace rpp;
#ifdef TRIVIAL
struct KT { u64 x; bool operator==(const KT&) const noexcept; };
struct VT { u64 x; };
#else
struct KT {
    u64 x;
    KT() noexcept;
    KT(KT&&) noexcept;
    KT& operator=(KT&&) noexcept;
    KT(const KT&) noexcept;
    KT& operator=(const KT&) noexcept;
    ~KT() noexcept;
    bool operator==(const KT&) const noexcept;
};
struct VT {
    u64 x;
    VT() noexcept;
    explicit VT(i32) noexcept;
    VT(VT&&) noexcept;
    VT& operator=(VT&&) noexcept;
    VT(const VT&) noexcept;
    VT& operator=(const VT&) noexcept;
    ~VT() noexcept;
};
#endif
namespace rpp::Hash {
template<> struct Hash<KT> { static u64 hash(const KT&) noexcept; };
}
RPP_RECORD(KT, RPP_FIELD(x));
using M = Map<KT, VT, Al<0>>;
using Slot = detail::Map_Slot<KT, VT>;
using It = M::iterator;
using CIt = M::const_iterator;
struct L_c { M c; };
struct L_slot { Slot s; };
struct L_pair { Pair<KT, VT> p; };
struct L_it { It i; };
struct L_opt { Opt<Ref<VT>> o; };
u64 force_layout = sizeof(L_c) + sizeof(L_slot) + sizeof(L_it) + sizeof(L_opt) + sizeof(L_pair);
extern "C" u64 h_slot_size() { return sizeof(Slot); }
// the same hash as the one stored
extern "C" {
u64 h_hashnz(const KT* k) { return hash_nonzero(*k); }
void h_ctor(M* out) { new(out) M{}; }
void h_ctor_cap(M* out, u64 n) { new(out) M(n); }
void h_ctor_move(M* out, M* s) { new(out) M{move(*s)}; }
void h_assign_move(M* m, M* s) { *m = move(*s); }
void h_dtor(M* m) { m->~M(); }
void h_clone(M* out, const M* m) { new(out) M{m->clone()}; }
void h_reserve(M* m, u64 n) { m->reserve(n); }
void h_grow(M* m) { m->grow(); }
void h_clear(M* m) { m->clear(); }
bool h_empty(const M* m) { return m->empty(); }
bool h_full(const M* m) { return m->full(); }
u64 h_length(const M* m) { return m->length(); }
VT* h_insert(M* m, KT* k, VT* v) { return &m->insert(move(*k), move(*v)); }
VT* h_emplace(M* m, KT* k, VT* v) { return &m->emplace(move(*k), move(*v)); }
void h_try_get(Opt<Ref<VT>>* out, M* m, const KT* k) { new(out) Opt<Ref<VT>>{m->try_get(*k)}; }
void h_ctry_get(Opt<Ref<const VT>>* out, const M* m, const KT* k) { new(out) Opt<Ref<const VT>>{m->try_get(*k)}; }
bool h_contains(const M* m, const KT* k) { return m->contains(*k); }
VT* h_get(M* m, const KT* k) { return &m->get(*k); }
const VT* h_cget(const M* m, const KT* k) { return &m->get(*k); }
bool h_try_erase(M* m, const KT* k) { return m->try_erase(*k); }
void h_erase(M* m, const KT* k) { m->erase(*k); }
VT* h_get_or_insert(M* m, const KT* k) { return &m->get_or_insert(*k); }
VT* h_get_or_insert_move(M* m, KT* k) { return &m->get_or_insert(move(*k)); }
void h_begin(It* out, M* m) { new(out) It{m->begin()}; }
void h_end(It* out, M* m) { new(out) It{m->end()}; }
void h_cbegin(CIt* out, const M* m) { new(out) CIt{m->begin()}; }
void h_cend(CIt* out, const M* m) { new(out) CIt{m->end()}; }
void h_incr(It* i) { ++*i; }
void h_post_incr(It* out, It* i) { new(out) It{(*i)++}; }
bool h_it_eq(const It* a, const It* b) { return *a == *b; }
const KT* h_it_key(It* a) { return &(**a).first; }
VT* h_it_value(It* a) { return &(*a)->second; }
}
