// asynchronous waiting, reading and writing: the coroutines up to where they suspend or finish
#include "rpp/pos/asyncio_pos.cpp"
using namespace rpp;
using T_wait = Async::Task<void>;
using T_read = Async::Task<Opt<Vec<u8, Files::Alloc>>>;
using T_write = Async::Task<bool>;
extern "C" {
void h_wait(T_wait* out, Async::Pool<>* p, u64 ms) { new(out) T_wait{Async::wait(*p, ms)}; }
void h_read(T_read* out, Async::Pool<>* p, String_View* v) { new(out) T_read{Async::read(*p, *v)}; }
void h_write(T_write* out, Async::Pool<>* p, String_View* v, Slice<u8>* d) { new(out) T_write{Async::write(*p, *v, *d)}; }
}
