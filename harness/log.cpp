// the log: output, callbacks, indentation and the macros built on it, over opaque containers, locks, log and libc
#include <rpp/base.h>
#include <rpp/impl/log.cpp>
using namespace rpp;
struct L_data { Log::Static_Data p; };
struct L_loc { Log::Location p; };
struct L_fn { Function<Log::Callback> p; };
u64 force_layout = sizeof(L_data) + sizeof(L_loc) + sizeof(L_fn);
extern "C" {
bool next(u64 id);
void body(u64 id);
void* h_data() { return &Log::g_log_data; }
u64* h_indent() { return &Log::g_log_indent; }
void h_output(u8 level, Log::Location* l, const u8* msg, u64 n) { Log::output(static_cast<Log::Level>(level), *l, String_View{msg, n}); }
u64 h_subscribe(Function<Log::Callback>* f) { return Log::subscribe(move(*f)); }
void h_unsubscribe(u64 t) { Log::unsubscribe(t); }
void h_scope() { Log_Indent { body(1); } body(2); }
void h_scope_return() { Log_Indent { body(1); if(next(1)) return; body(2); } body(3); }
void h_scope_loop() { for(u64 i = 0; i < 2; i++) { Log_Indent { body(1); if(next(1)) continue; if(next(2)) break; body(2); } } body(3); }
void h_assert() { assert(next(1)); body(1); }
void h_assert_if() { if(next(1)) assert(next(2)); else body(1); body(2); }
void h_die(u64* x) { if(next(1)) die("at %", *x); body(1); }
void h_unreachable() { if(next(1)) RPP_UNREACHABLE; body(1); }
void h_info(u64* x) { if(next(1)) info("at %", *x); else body(1); body(2); }
void h_warn(u64* x) { if(next(1)) warn("at %", *x); else body(1); body(2); }
void h_log(u8 level, Log::Location* l, String_View* f, u64* x) { Log::log(static_cast<Log::Level>(level), *l, *f, *x); }
void h_log0(u8 level, Log::Location* l, String_View* f) { Log::log(static_cast<Log::Level>(level), *l, *f); }
void h_init(Log::Static_Data* d) { new(d) Log::Static_Data; }
void h_drop(Log::Static_Data* d) { d->~Static_Data(); }
void h_sys_error(String_View* out) { new(out) String_View{Log::sys_error()}; }
u64 h_sys_time() { return Log::sys_time(); }
void h_time_string(u64 t, String_View* out) { new(out) String_View{Log::sys_time_string(t)}; }
bool h_same(Log::Location* a, Log::Location* b) { return *a == *b; }
void h_break() { Log::debug_break(); }
}
