// the coroutine pool: its public operations over opaque containers, events, atomics and lock primitives
#include "tok.h"
#include <rpp/async.h>
#include <rpp/pool.h>
using namespace rpp::Async;
using PL = Async::Pool<>;
using SC = Schedule<>;
using SE = Schedule_Event<>;
using EP = Pair<Event, Handle<>>;
struct L_pool { PL p; };
struct L_pair { EP p; };
struct L_sc { SC s; };
struct L_se { SE s; };
u64 force_layout = sizeof(L_pool) + sizeof(L_pair) + sizeof(L_sc) + sizeof(L_se);
static std::coroutine_handle<> co(void* h) { return std::coroutine_handle<>::from_address(h); }
extern "C" {
void h_ctor(PL* p) { new(p) PL{}; }
void h_dtor(PL* p) { p->~PL(); }
u64 h_n_threads(PL* p) { return p->n_threads(); }
bool h_sched_ready(SC* s) { return s->await_ready(); }
void h_sched_suspend(SC* s, void* h) { s->await_suspend(co(h)); }
void h_suspend(SC* out, PL* p) { new(out) SC{p->suspend()}; }
bool h_event_ready(SE* s) { return s->await_ready(); }
void h_event_suspend(SE* s, void* h) { s->await_suspend(co(h)); }
void h_event(SE* out, PL* p, Event* e) { new(out) SE{p->event(move(*e))}; }
}
