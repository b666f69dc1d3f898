// allocators, taken from the library's own source file
#include <rpp/impl/alloc.cpp>
#include "tok.h"
using namespace rpp;
constexpr u64 BRAND = 0x7123456789abcdefull;
using RScope = Region_Allocator::Scope<BRAND>;
struct El {
    u64 x[3];
    El(i32) noexcept;
    El(El&&) noexcept;
    ~El() noexcept;
};
struct Small {
    u8 x[2];
    Small(i32) noexcept;
    ~Small() noexcept;
};
struct Plain {
    u64 x[3];
};
using FL = Free_List<El, Al<1>>;
using FS = Free_List<Small, Al<1>>;
struct L_chunk { Chunk c; };
struct L_first { First_Chunk c; };
struct L_fl { FL l; };
struct L_alloc { Profile::Alloc a; };
u64 force_layout = sizeof(L_chunk) + sizeof(L_first) + sizeof(L_fl) + sizeof(L_alloc);
extern "C" {
void h_begin(RScope* s) { new(s) RScope; }
void h_end(RScope* s) { s->~Scope(); }
void* h_ralloc(u64 brand, u64 size) { return Region_Allocator::alloc(brand, size); }
void h_rfree(u64 brand, void* p) { Region_Allocator::free(brand, p); }
u64 h_depth() { return Region_Allocator::depth(); }
u64 h_size() { return Region_Allocator::size(); }
void* h_mralloc(u64 size) { return Mregion<BRAND>::alloc(size); }
void h_mrfree(void* p) { Mregion<BRAND>::free(p); }
void h_scoped(void (*f)(void*), void* x) { Region(R) { f(x); } }

void* h_sysalloc(u64 n) { return sys_alloc(n); }
void h_sysfree(void* p) { sys_free(p); }
i64 h_net() { return sys_net_allocs(); }
void* h_malloc(u64 n) { return Mallocator<"A", true>::alloc(n); }
void h_mfree(void* p) { Mallocator<"A", true>::free(p); }
void* h_qalloc(u64 n) { return Mallocator<"B", false>::alloc(n); }
void h_qfree(void* p) { Mallocator<"B", false>::free(p); }

El* h_smake(i32 v) { return Pool_Adaptor<Al<1>>::template make<El>(v); }
void h_sdestroy(El* e) { Pool_Adaptor<Al<1>>::template destroy<El>(e); }
Plain* h_spmake(const Plain& p) { return Pool_Adaptor<Al<1>>::template make<Plain>(p); }
void h_spdestroy(Plain* e) { Pool_Adaptor<Al<1>>::template destroy<Plain>(e); }

void h_fl_ctor(FL* l) { new(l) FL; }
void h_fl_dtor(FL* l) { l->~FL(); }
void h_fl_move(FL* l, FL* k) { new(l) FL(rpp::move(*k)); }
void h_fl_assign(FL* l, FL* k) { *l = rpp::move(*k); }
El* h_fl_make(FL* l, i32 v) { return l->make(v); }
void h_fl_destroy(FL* l, El* e) { l->destroy(e); }
void h_fl_clear(FL* l) { l->clear(); }
Small* h_fs_make(FS* l, i32 v) { return l->make(v); }
void h_fs_destroy(FS* l, Small* e) { l->destroy(e); }

El* h_pool_make(i32 v) { return Mpool::make<El>(v); }
void h_pool_destroy(El* e) { Mpool::destroy(e); }
Small* h_pools_make(i32 v) { return Mpool::make<Small>(v); }
void h_pools_destroy(Small* e) { Mpool::destroy(e); }
}
