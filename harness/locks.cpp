// the whole library in one unit, with user code (constructors, callbacks, coroutines) left external: for lock order and lock discipline
#include <rpp/base.h>
#include <rpp/impl/unify.cpp>
#include <rpp/pos/unify.cpp>
#include <rpp/asyncio.h>
#include <rpp/box.h>
#include <rpp/files.h>
#include <rpp/function.h>
#include <rpp/heap.h>
#include <rpp/log_callback.h>
#include <rpp/map.h>
#include <rpp/net.h>
#include <rpp/pool.h>
#include <rpp/range_allocator.h>
#include <rpp/rc.h>
#include <rpp/stack.h>
#include <rpp/thread.h>
#include <rpp/tuple.h>
#include <rpp/variant.h>
using namespace rpp;
extern "C" void user_code(u64 what);
struct User {
    u64 x;
    User() { user_code(0); }
    explicit User(u64 i) : x(i) { user_code(1); }
    User(User&&) { user_code(2); }
    User& operator=(User&&) { user_code(3); return *this; }
    User clone() const { user_code(4); return User{x}; }
    ~User() { user_code(5); }
    bool operator<(const User& o) const { user_code(6); return x < o.x; }
    bool operator==(const User& o) const { user_code(7); return x == o.x; }
};
namespace rpp::Hash { template<> struct Hash<User> { static u64 hash(const User& u) { user_code(8); return u.x; } }; }
using A = Mallocator<"Locks">;
template struct rpp::Vec<User, A>;
template struct rpp::Queue<User, A>;
template struct rpp::Map<u64, u64, A>;
template struct rpp::Box<User, Mpool>;
template struct rpp::Rc<User, Mpool>;
template struct rpp::Arc<User, Mpool>;
template struct rpp::Async::Pool<>;
template struct rpp::Async::Pool<A>;
template struct rpp::Range_Allocator<A, 4, 4>;
template struct rpp::Thread::Thread<>;
template struct rpp::Thread::Promise<User>;
extern "C" {
void h_pool_box() { Box<User, Mpool> b{1ull}; auto c = b.clone(); }
void h_pool_rc() { Rc<User, Mpool> b{1ull}; auto c = b.dup(); Arc<User, Mpool> d{2ull}; auto e = d.dup(); }
void h_mpool() { Mpool::destroy(Mpool::make<User>(1ull)); }
void h_iterate() { Profile::iterate_timings([](Thread::Id, Profile::Timing_Node&) { user_code(10); }); }
void h_spawn() { auto f = Thread::spawn([]() { user_code(11); return u64{1}; }); f->block(); }
void h_spawn_void() { auto f = Thread::spawn([]() { user_code(11); }); f->block(); }
void h_function(Function<void()>* f) { (*f)(); }
void h_map() { Map<u64, User, A> m; m.insert(1ull, User{}); m.erase(1ull); for(auto& p : m) user_code(p.first); }
void h_task(Async::Pool<>* p) {
    auto co = [](Async::Pool<>& pool) -> Async::Task<u64> { co_await pool.suspend(); user_code(12); co_await pool.event(Async::Event{}); co_return 1ull; };
    co(*p).block();
}
void h_file(Async::Pool<>* p, String_View* n) {
    auto co = [](Async::Pool<>& pool, String_View path) -> Async::Task<void> { auto d = co_await Async::read(pool, path); if(d.ok()) co_await Async::write(pool, path, d->slice()); co_await Async::wait(pool, 1); };
    co(*p, *n).block();
}
// what a log callback may do: allocate, format, release
void h_callback(u64 n) { auto v = Vec<u64, Mdefault>::make(n); auto s = format<Mdefault>("%"_v, n); Region(R) { auto t = format<Mregion<R>>("%"_v, n); } }
}
