// frame profiles, timing trees and allocation accounts over opaque containers, locks, log and clock
#include <rpp/base.h>
#include <rpp/impl/profile.cpp>
using namespace rpp;
using PF = Profile;
using FP = Profile::Frame_Profile;
using TN = Profile::Timing_Node;
using TP = Profile::Thread_Profile;
using AP = Profile::Alloc_Profile;
struct L_frame { FP p; };
struct L_node { TN p; };
struct L_thread { TP p; };
struct L_aprof { AP p; };
struct L_alloc { Profile::Alloc p; };
struct L_entry { Pair<Thread::Id, Ref<TP>> p; };
struct L_aentry { Pair<String_View, AP> p; };
struct L_fn { Function<void()> p; };
u64 force_layout = sizeof(L_frame) + sizeof(L_node) + sizeof(L_thread) + sizeof(L_aprof) + sizeof(L_alloc) + sizeof(L_entry) + sizeof(L_aentry) + sizeof(L_fn);
extern "C" {
void sink(u64 id, TN* n);
u64 h_begin(FP* f) { return f->begin(); }
void h_end(FP* f) { f->end(); }
void h_enter(FP* f, Log::Location* l) { f->enter(*l); }
void h_exit(FP* f) { f->exit(); }
void h_new_frame(FP* f) { new(f) FP{}; }
void h_new_aprof(AP* f) { new(f) AP{}; }
void h_new_thread(TP* f) { new(f) TP{}; }
void h_drop_thread(TP* f) { f->~TP(); }
TP* h_this_thread() { return &PF::this_thread; }
void* h_threads() { return &PF::threads; }
void* h_allocs() { return &PF::allocs; }
void* h_finalizers() { return &PF::finalizers; }
void* h_threads_lock() { return &PF::threads_lock; }
void* h_allocs_lock() { return &PF::allocs_lock; }
void* h_finalizers_lock() { return &PF::finalizers_lock; }
float h_begin_frame() { return PF::begin_frame(); }
void h_end_frame() { PF::end_frame(); }
void h_p_enter(Log::Location* l) { PF::enter(*l); }
void h_p_enter_name(String_View* l) { PF::enter(*l); }
void h_p_exit() { PF::exit(); }
void h_alloc(Profile::Alloc* a) { PF::alloc(*a); }
void h_finalizer(Function<void()>* f) { PF::finalizer(move(*f)); }
void h_finalize() { PF::finalize(); }
void h_iterate() { PF::iterate_timings([](Thread::Id id, TN& n) { sink(id, &n); }); }
f32 h_ms(u64 t) { return PF::ms(t); }
f32 h_s(u64 t) { return PF::s(t); }
void h_scope_loc(Log::Location* l) { Profile::Scope s{*l}; sink(0, null); }
void h_trace(String_View* n) { Trace(*n) { sink(0, null); } }
}
