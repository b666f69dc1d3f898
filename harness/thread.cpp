// OS synchronisation layer, taken from the library's own source file
#include <rpp/pos/thread_pos.cpp>
using namespace rpp;
using namespace rpp::Thread;
struct L_mutex { Mutex m; };
struct L_cond { Cond c; };
struct L_flag { Flag f; };
struct L_atomic { Atomic a; };
struct L_lock { Lock l; };
u64 force_layout = sizeof(L_mutex) + sizeof(L_cond) + sizeof(L_flag) + sizeof(L_atomic) + sizeof(L_lock);
extern "C" {
void h_mutex_ctor(Mutex* m) { new(m) Mutex; }
void h_mutex_dtor(Mutex* m) { m->~Mutex(); }
void h_mutex_lock(Mutex* m) { m->lock(); }
void h_mutex_unlock(Mutex* m) { m->unlock(); }
bool h_mutex_try_lock(Mutex* m) { return m->try_lock(); }
void h_cond_ctor(Cond* c) { new(c) Cond; }
void h_cond_dtor(Cond* c) { c->~Cond(); }
void h_cond_signal(Cond* c) { c->signal(); }
void h_cond_broadcast(Cond* c) { c->broadcast(); }
void h_cond_wait(Cond* c, Mutex* m) { c->wait(*m); }
void h_flag_ctor(Flag* f) { new(f) Flag; }
void h_flag_dtor(Flag* f) { f->~Flag(); }
void h_flag_block(Flag* f) { f->block(); }
void h_flag_signal(Flag* f) { f->signal(); }
bool h_flag_ready(Flag* f) { return f->ready(); }
i64 h_atomic_load(Atomic* a) { return a->load(); }
i64 h_atomic_incr(Atomic* a) { return a->incr(); }
i64 h_atomic_decr(Atomic* a) { return a->decr(); }
i64 h_atomic_exchange(Atomic* a, i64 v) { return a->exchange(v); }
i64 h_atomic_cas(Atomic* a, i64 c, i64 v) { return a->compare_and_swap(c, v); }
void h_lock_scope(Mutex* m) { Lock l(*m); }
void h_lock_move(Mutex* m) { Lock l(*m); Lock k(move(l)); }
void h_lock_assign(Mutex* m, Mutex* n) { Lock l(*m); Lock k(*n); l = move(k); }
void h_join(OS_Thread t) { sys_join(t); }
void h_detach(OS_Thread t) { sys_detach(t); }
OS_Thread h_start(OS_Thread_Ret (*f)(void*), void* d) { return sys_start(f, d); }
Id h_sysid(OS_Thread t) { return sys_id(t); }
Id h_this_id() { return this_id(); }
u64 h_perf_counter() { return perf_counter(); }
u64 h_perf_frequency() { return perf_frequency(); }
u64 h_hardware_threads() { return hardware_threads(); }
void h_sleep(u64 ms) { rpp::Thread::sleep(ms); }
void h_set_affinity(u64 core) { set_affinity(core); }
}
