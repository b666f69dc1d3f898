// threads, promises and futures over an opaque closure and result
#include "tok.h"
#include <rpp/thread.h>
using TH = Thread::Thread<Al<0>>;
struct Job {
    Tok t;
    void operator()() noexcept;
};
struct Fn {
    Tok t;
    Tok operator()(u64) noexcept;
};
struct FnV {
    Tok t;
    void operator()(u64) noexcept;
};
using P = Thread::Promise<Tok>;
using PV = Thread::Promise<void>;
using F = Thread::Future<Tok, Al<0>>;
using FV = Thread::Future<void, Al<0>>;
struct L_th { TH t; };
struct L_p { P p; };
struct L_f { F f; };
struct L_fd { detail::Arc_Data<P> d; };
struct L_fvd { detail::Arc_Data<PV> d; };
u64 force_layout = sizeof(L_th) + sizeof(L_p) + sizeof(L_f) + sizeof(L_fd) + sizeof(L_fvd);
extern "C" {
void h_thread_ctor(TH* out) { new(out) TH{}; }
void h_thread_start(TH* out, Job* j) { new(out) TH{move(*j)}; }
void h_thread_dtor(TH* t) { t->~TH(); }
void h_thread_move(TH* out, TH* s) { new(out) TH{move(*s)}; }
void h_thread_assign(TH* t, TH* s) { *t = move(*s); }
void h_thread_join(TH* t) { t->join(); }
void h_thread_detach(TH* t) { t->detach(); }
Thread::Id h_thread_id(TH* t) { return t->id(); }
void h_promise_fill(P* p, Tok* v) { p->fill(move(*v)); }
void h_promise_block(Tok* out, P* p) { new(out) Tok{p->block()}; }
bool h_promise_ready(P* p) { return p->ready(); }
void h_vpromise_fill(PV* p) { p->fill(); }
void h_vpromise_block(PV* p) { p->block(); }
bool h_vpromise_ready(PV* p) { return p->ready(); }
void h_spawn(F* out, Fn* f, u64 x) { new(out) F{Thread::spawn<Al<0>>(move(*f), u64{x})}; }
void h_spawn_void(FV* out, FnV* f, u64 x) { new(out) FV{Thread::spawn<Al<0>>(move(*f), u64{x})}; }
}
