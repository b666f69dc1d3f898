// files, sockets and events, taken from the library's own source files
#include <rpp/pos/files_pos.cpp>
#include <rpp/pos/net_pos.cpp>
#include <rpp/pos/async_pos.cpp>
using namespace rpp;
using OV = Opt<Vec<u8, Files::Alloc>>;
using OT = Opt<Files::File_Time>;
using OD = Opt<Net::Udp::Data>;
struct L_ov { OV o; };
struct L_ot { OT o; };
struct L_od { OD o; };
struct L_addr { Net::Address a; };
struct L_udp { Net::Udp u; };
struct L_ev { Async::Event e; };
struct L_ww { Files::Write_Watcher w; };
u64 force_layout = sizeof(L_ov) + sizeof(L_ot) + sizeof(L_od) + sizeof(L_addr) + sizeof(L_udp) + sizeof(L_ev) + sizeof(L_ww);
extern "C" {
void h_read(OV* out, const u8* p, u64 n) { new(out) OV{Files::read(String_View{p, n})}; }
bool h_write(const u8* p, u64 n, const u8* d, u64 m) { return Files::write(String_View{p, n}, Slice<const u8>{d, m}); }
void h_time(OT* out, const u8* p, u64 n) { new(out) OT{Files::last_write_time(String_View{p, n})}; }
bool h_before(Files::File_Time a, Files::File_Time b) { return Files::before(a, b); }
void h_watch(Files::Write_Watcher* w, const u8* p, u64 n) { new(w) Files::Write_Watcher{String_View{p, n}}; }
bool h_poll(Files::Write_Watcher* w) { return w->poll(); }
void h_addr_port(Net::Address* a, u16 p) { new(a) Net::Address{p}; }
void h_addr_ip(Net::Address* a, const u8* s, u64 n, u16 p) { new(a) Net::Address{String_View{s, n}, p}; }
void h_udp_ctor(Net::Udp* u) { new(u) Net::Udp{}; }
void h_udp_dtor(Net::Udp* u) { u->~Udp(); }
void h_udp_move(Net::Udp* u, Net::Udp* s) { new(u) Net::Udp{move(*s)}; }
void h_udp_assign(Net::Udp* u, Net::Udp* s) { *u = move(*s); }
void h_udp_bind(Net::Udp* u, const Net::Address* a) { u->bind(*a); }
void h_udp_recv(OD* out, Net::Udp* u, Net::Packet* p) { new(out) OD{u->recv(*p)}; }
u64 h_udp_send(Net::Udp* u, const Net::Address* a, const Net::Packet* p, u64 n) { return u->send(*a, *p, n); }
void h_ev_ctor(Async::Event* e) { new(e) Async::Event{}; }
void h_ev_dtor(Async::Event* e) { e->~Event(); }
void h_ev_move(Async::Event* e, Async::Event* s) { new(e) Async::Event{move(*s)}; }
void h_ev_assign(Async::Event* e, Async::Event* s) { *e = move(*s); }
void h_ev_of_sys(Async::Event* e, i32 fd, i32 m) { new(e) Async::Event{Async::Event::of_sys(fd, m)}; }
void h_ev_signal(const Async::Event* e) { e->signal(); }
void h_ev_reset(const Async::Event* e) { e->reset(); }
bool h_ev_try_wait(const Async::Event* e) { return e->try_wait(); }
u64 h_ev_wait_any(Async::Event* e, u64 n) { return Async::Event::wait_any(Slice<Async::Event>{e, n}); }
}
