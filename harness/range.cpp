// the range allocator with two size classes, and with three
#include <rpp/base.h>
#include <rpp/range_allocator.h>
using namespace rpp;
using RA = Range_Allocator<Mdefault, 2, 1>;
using RA3 = Range_Allocator<Mdefault, 3, 1>;
using Block = RA::Block;

struct L_ra : RA {};
struct L_ra3 : RA3 {};
struct L_block : Block {};
struct L_opt {
    Opt<RA::Range> o;
};
u64 force_layout = sizeof(L_ra) + sizeof(L_ra3) + sizeof(L_block) + sizeof(L_opt);

extern "C" {
void h_default(RA* a) { new(a) RA{}; }
void h_make(RA* a, u64 size) { new(a) RA{size}; }
void h_allocate(Opt<RA::Range>* o, RA* a, u64 size, u64 alignment) { new(o) Opt<RA::Range>{a->allocate(size, alignment)}; }
void h_allocate3(Opt<RA3::Range>* o, RA3* a, u64 size, u64 alignment) { new(o) Opt<RA3::Range>{a->allocate(size, alignment)}; }
void h_free(RA* a, RA::Range r) { a->free(r); }
void h_statistics(RA::Stats* s, RA* a) { new(s) RA::Stats{a->statistics()}; }
void h_destroy(RA* a) { a->~RA(); }
void h_move(RA* a, RA* b) { new(a) RA{rpp::move(*b)}; }
void h_assign(RA* a, RA* b) { *a = rpp::move(*b); }
u64 h_length(Block* b) { return b->length(); }
u64 h_padding(Block* b) { return b->padding(); }
}
