// coroutine tasks: the protocol between a task handle and its coroutine, over a move-only result
#include "tok.h"
#include <rpp/async.h>
using namespace rpp;
using namespace rpp::Async;
using PT = Promise<Tok, Al<1>>;
using PC = Promise<TokC, Al<1>>;
using PV = Promise<void, Al<1>>;
using TT = Task<Tok, Al<1>>;
using TV = Task<void, Al<1>>;
struct Peek : Promise_Base<Tok, Al<1>> {
    using B = Promise_Base<Tok, Al<1>>;
    using B::flag;
    using B::state;
};
struct L_pt { PT p; };
struct L_pc { PC p; };
struct L_pv { PV p; };
struct L_tt { TT t; };
u64 force_layout = sizeof(L_pt) + sizeof(L_pc) + sizeof(L_pv) + sizeof(L_tt);
template<typename P> static std::coroutine_handle<P> at(P* p) { return std::coroutine_handle<P>::from_promise(*p); }
extern "C" {
void h_pt_ctor(PT* p) { ::new((void*)p) PT{}; }
void h_pv_ctor(PV* p) { ::new((void*)p) PV{}; }
void* h_final(PT* p) { return Final_Suspend{}.await_suspend(at(p)).address(); }
void* h_final_v(PV* p) { return Final_Suspend{}.await_suspend(at(p)).address(); }
bool h_final_ready(PT* p) { return p->final_suspend().await_ready(); }
bool h_initial_ready(PT* p) { return p->initial_suspend().await_ready(); }
bool h_suspend_ready() { return Suspend{}.await_ready(); }
bool h_continue_ready() { return Continue{}.await_ready(); }
void h_object(TT* t, PT* p) { new(t) TT{p->get_return_object()}; }
void h_object_v(TV* t, PV* p) { new(t) TV{p->get_return_object()}; }
void h_return_move(PT* p, Tok* v) { p->return_value(move(*v)); }
void h_return_copy(PC* p, const TokC* v) { p->return_value(*v); }
void h_return_void(PV* p) { p->return_void(); }
void h_pblock(PT* p) { p->block(); }
void h_unhandled(PT* p) { p->unhandled_exception(); }
void* h_new(u64 n) { return PT::operator new(n); }
void h_delete(void* p, u64 n) { PT::operator delete(p, n); }
void h_task_ctor(TT* t) { new(t) TT{}; }
void h_task_dtor(TT* t) { t->~TT(); }
void h_taskv_dtor(TV* t) { t->~TV(); }
void h_task_move(TT* t, TT* s) { new(t) TT{move(*s)}; }
void h_task_massign(TT* t, TT* s) { *t = move(*s); }
bool h_task_ready(TT* t) { return t->await_ready(); }
bool h_task_done(TT* t) { return t->done(); }
bool h_task_ok(TT* t) { return t->ok(); }
bool h_task_suspend(TT* t, void* c) { return t->await_suspend(std::coroutine_handle<>::from_address(c)); }
void h_task_get(Tok* out, TT* t) { new(out) Tok{t->await_resume()}; }
void h_taskv_get(TV* t) { t->await_resume(); }
void h_task_block(Tok* out, TT* t) { new(out) Tok{t->block()}; }
void h_taskv_block(TV* t) { t->block(); }
void h_task_resume(TT* t) { t->resume(); }
}
// a continuation that is run with the task's result
struct Fn {
    u64 x[3];
    Fn(Fn&&) noexcept;
    ~Fn() noexcept;
    TT operator()(Tok) noexcept;
};
extern "C" {
void h_then(TT* out, TT* t, Fn* f) { ::new(out) TT{t->then(move(*f))}; }
}
