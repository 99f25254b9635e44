// Instantiates every template of the library, so that the analysis sees the
// type-checked bodies. Nothing here is ever executed.
#include <boost/cobalt.hpp>
#include <boost/cobalt/composition.hpp>
#include <boost/cobalt/experimental/context.hpp>
#include <boost/cobalt/experimental/yield_context.hpp>
#include <boost/cobalt/detail/sbo_resource.hpp>
#include <boost/cobalt/detail/monotonic_resource.hpp>
#include <boost/asio.hpp>
#include <vector>
#include <string>

namespace drv
{
namespace asio = boost::asio;
namespace cobalt = boost::cobalt;
using namespace boost::cobalt;
using boost::system::error_code;

struct val { std::string s; int i = 0; };

// awaitables with a plain protocol, used as user provided children
struct user_void
{
  bool await_ready();
  template<typename P> bool await_suspend(std::coroutine_handle<P> h);
  void await_resume();
};
struct user_val
{
  bool await_ready();
  template<typename P> bool await_suspend(std::coroutine_handle<P> h);
  val await_resume();
  void interrupt_await() &;
};

inline promise<int> pi() { co_return 1; }
inline promise<val> pval() { co_return val{}; }
inline promise<void> pv() { co_return; }
inline task<int> ti() { co_return 1; }
inline task<val> tval() { co_return val{}; }
inline task<void> tv() { co_return; }
inline generator<int> gi() { co_yield 1; co_return 2; }
inline generator<val> gval() { co_yield val{}; co_return val{}; }
inline generator<int, val> gip() { val v = co_yield 1; co_return 2; }
inline generator<val, int> gvp() { auto i = co_await this_coro::initial; int j = co_yield val{}; co_return val{}; }
inline detached det() { co_await pv(); co_return; }
inline detached det2(executor e) { co_await pi(); co_return; }
inline promise<int> pxi(asio::executor_arg_t, executor e) { co_return 1; }
inline promise<int> pxm(int, asio::executor_arg_t, executor e, std::allocator_arg_t, pmr::polymorphic_allocator<void> a) { co_return 1; }
inline generator<int> gxi(int, asio::executor_arg_t, executor e) { co_return 1; }
inline generator<int> gxm(std::allocator_arg_t, pmr::polymorphic_allocator<void> a, int) { co_return 1; }
inline detached dxi(asio::executor_arg_t, executor e) { co_return ; }
inline detached dxm(int, std::allocator_arg_t, pmr::polymorphic_allocator<void> a) { co_return ; }
inline task<int> txm(int, std::allocator_arg_t, pmr::polymorphic_allocator<void> a) { co_return 1; }
inline cobalt::thread thr() { co_await pv(); co_await this_coro::executor; co_return; }

template<typename T> promise<void> overloads_of(T mk)
{
  (void)co_await as_tuple(mk());
  (void)co_await as_result(mk());
}

inline promise<void> use_promise()
{
  auto p = pi(); auto p2 = pval(); auto p3 = pv();
  int i = co_await p; val v = co_await p2; co_await p3;
  i = co_await pi(); v = co_await pval(); co_await pv();
  (void)co_await as_tuple(pi()); (void)co_await as_result(pi());
  (void)co_await as_tuple(pval()); (void)co_await as_result(pval());
  (void)co_await as_tuple(pv()); (void)co_await as_result(pv());
  auto q = pi(); q.cancel(); (void)q.ready(); (void)!!q; (void)q.attached(); q.detach(); q.attach(); q.attached(); +pi();
  if (q.ready()) q.get();
  auto q2 = pval(); q2 = std::move(p2); auto q3 = std::move(q2); q3.cancel(); (void)q3.ready(); if (q3.ready()) q3.get(); +pval(); q3.detach(); q3.attach();
  auto r = pv(); r = pv(); r.cancel(); (void)r.ready(); if (r.ready()) r.get(); +pv(); r.detach();
  q = pi();
}

inline task<void> use_task()
{
  auto t = ti(); auto t2 = tval(); auto t3 = tv();
  int i = co_await t; val v = co_await t2; co_await t3;
  i = co_await ti(); v = co_await tval(); co_await tv();
  i = co_await std::move(t); v = co_await std::move(t2); co_await std::move(t3);
  (void)co_await as_tuple(ti()); (void)co_await as_result(ti());
  (void)co_await as_tuple(tval()); (void)co_await as_result(tval());
  (void)co_await as_tuple(tv()); (void)co_await as_result(tv());
  auto u = std::move(t); auto u2 = std::move(t2); auto u3 = std::move(t3);
}

inline generator<int, int> use_generator(int a)
{
  auto g = gi(); int i = co_await g; 
  auto g2 = gval(); val v = co_await g2;
  auto g3 = gip(); i = co_await g3(val{});
  const val cv{}; i = co_await g3(cv);
  auto g4 = gvp(); v = co_await g4(1); int ii = 1; v = co_await g4(ii);
  (void)co_await as_tuple(gi()); (void)co_await as_result(gi());
  (void)co_await as_tuple(gval()); (void)co_await as_result(gval());
  (void)co_await as_tuple(g3(val{})); (void)co_await as_result(g3(val{}));
  g.cancel(); (void)g.ready(); (void)!!g; if (g.ready()) g.get();
  g2.cancel(); (void)g2.ready(); (void)!!g2; if (g2.ready()) g2.get(); g2 = gval(); auto h2 = std::move(g2);
  g3.cancel(); g3 = gip(); auto h3 = std::move(g3); if (h3.ready()) h3.get();
  g = gi(); auto h = std::move(g);
  i = co_yield 1;
  BOOST_COBALT_FOR(auto x, g) { (void)x; }
  co_return 0;
}

inline promise<void> use_channel(executor e)
{
  channel<int> c{2u, e}; channel<val> cv{0u, e}; channel<void> c0{1u, e}; channel<std::string> cs{1u, e};
  int i = co_await c.read(); val v = co_await cv.read(); co_await c0.read();
  co_await c.write(1); co_await c.write(i); const int k = 3; co_await c.write(k); co_await c.write(std::move(k)); co_await cv.write(val{}); co_await cv.write(v); const val w{}; co_await cv.write(w); co_await cv.write(std::move(w)); co_await c0.write();
  (void)co_await as_tuple(c.read()); (void)co_await as_result(c.read()); (void)co_await as_tuple(cv.read()); (void)co_await as_result(cv.read()); (void)co_await as_tuple(c0.read()); (void)co_await as_result(c0.read());
  (void)co_await as_tuple(c.write(1)); (void)co_await as_result(c.write(1)); (void)co_await as_tuple(cv.write(v)); (void)co_await as_result(cv.write(v)); (void)co_await as_tuple(c0.write()); (void)co_await as_result(c0.write());
  c.close(); cv.close(); c0.close(); (void)c.is_open(); (void)c0.is_open(); (void)c.get_executor(); (void)c0.get_executor();
  channel_reader<int> r{c}; i = co_await r; (void)!!r; channel_reader<void> r0{c0}; co_await r0; (void)!!r0;
  channel_reader<val> rv{cv}; v = co_await rv; (void)!!rv;
}

inline promise<void> use_combinators(executor e)
{
  std::vector<promise<int>> vi; std::vector<promise<void>> vv; std::vector<promise<val>> vl; std::vector<task<int>> vt;
  channel<int> c{0u, e}; channel<void> c0{0u, e};
  auto gg = gi(); auto p = pi(); auto p0 = pv();
  { auto x = co_await gather(pi(), pv(), tval()); }
  { auto x = co_await gather(p, p0, c.read(), gg); }
  { auto x = co_await gather(vi); auto y = co_await gather(vv); auto z = co_await gather(vl); auto w = co_await gather(std::move(vt)); }
  (void)co_await as_tuple(gather(pi(), pv()));
  (void)co_await as_result(gather(pi(), pv()));
  { auto x = co_await join(pi(), pval()); co_await join(pv(), pv()); auto y = co_await join(pi(), pv(), tval(), c.read()); auto z = co_await join(p, p0); }
  { auto x = co_await join(vi); co_await join(vv); auto z = co_await join(vl); auto w = co_await join(std::move(vt)); }
  (void)co_await as_tuple(join(vi)); (void)co_await as_result(join(vi));
  (void)co_await as_result(join(pv(), pv())); (void)co_await as_tuple(join(pv(), pv()));
  (void)co_await as_tuple(join(pi(), pval()));
  { auto x = co_await race(pi(), pval(), c.read()); auto y = co_await race(pv(), pv()); auto z = co_await race(pi(), pv()); auto w = co_await race(p, p0, gg, c0.read(), c.write(1)); auto q = co_await race(pi(), pi());
    auto u = co_await race(user_val{}, pi()); }
  { auto x = co_await left_race(pi(), pval()); auto y = co_await left_race(pv(), pv()); auto z = co_await left_race(vi); auto w = co_await left_race(vv); auto q = co_await left_race(c.read(), p0); }
  { auto x = co_await race(vi); auto y = co_await race(vv); auto z = co_await race(vl); auto w = co_await race(std::move(vt)); }
  (void)co_await as_result(race(pi(), pval())); (void)co_await as_result(race(vi)); (void)co_await as_result(race(vv)); (void)co_await as_result(race(pv(), pv()));
  (void)co_await as_tuple(race(pi(), pval())); (void)co_await as_tuple(race(vi)); (void)co_await as_tuple(race(vv)); (void)co_await as_tuple(race(pv(), pv()));
  { auto x = co_await race(gather(p, pv()), pi()); auto y = co_await race(gather(vi), pi()); auto z = co_await race(join(p, p0), pi()); auto w = co_await race(join(vi), pi()); auto u = co_await race(race(p, p0), pi()); auto q = co_await race(race(vi), pi()); auto q2 = co_await race(left_race(p, pi()), c.write(1), c0.write()); }
}

template<typename T> struct my_aw { bool await_ready(); void await_suspend(std::coroutine_handle<void>); T await_resume(); };
struct my_res { int id = 0; my_aw<void> await_exit(std::exception_ptr); };
inline promise<void> use_with(wait_group &wgr)
{
  co_await with(my_res{}, [](my_res &) -> my_aw<void> { return {}; });
  co_await with(my_res{}, [](my_res &) -> my_aw<void> { return {}; }, [](my_res &&, std::exception_ptr) -> my_aw<void> { return {}; });
  int i = co_await with(my_res{}, [](my_res &) -> my_aw<int> { return {}; }, [](my_res &&, std::exception_ptr) -> my_aw<void> { return {}; });
  i = co_await with(my_res{}, [](my_res &) -> int { return 1; }, [](my_res, std::exception_ptr) -> my_aw<void> { return {}; });
  co_await with(int(1), [](int &) -> void { return; }, [](int, std::exception_ptr) -> my_aw<void> { return {}; });
  co_await with(wait_group(), [](wait_group &w) -> promise<void> { w.push_back(pv()); co_return; });
}

inline promise<void> use_wait_group()
{
  wait_group w; w.push_back(pv()); (void)w.size(); (void)w.reap(); w.cancel();
  co_await w.wait_one(); co_await w.wait(); co_await w; co_await w.await_exit(nullptr);
  (void)co_await as_result(w.wait()); 
}

struct my_op0 final : op<> { void initiate(completion_handler<>) override; };
struct my_op1 final : op<error_code> { void initiate(completion_handler<error_code>) override; void ready(handler<error_code> h) override; };
struct my_op2 final : op<error_code, int> { void initiate(completion_handler<error_code, int>) override; };
struct my_op3 final : op<std::exception_ptr, val, int> { void initiate(completion_handler<std::exception_ptr, val, int>) override; };
struct my_op4 final : op<int> { void initiate(completion_handler<int>) override; };
struct my_op5 final : op<std::exception_ptr> { void initiate(completion_handler<std::exception_ptr>) override; };
struct my_op6 final : op<error_code, int, val> { void initiate(completion_handler<error_code, int, val>) override; };

template<typename Op> promise<void> use_op_(Op & o)
{
  auto aw0 = o.operator co_await(); auto aw1 = std::move(aw0); co_await std::move(aw1);
  co_await std::move(o);
  co_await Op{};
  (void)co_await as_tuple(Op{});
  (void)co_await as_result(Op{});
}
inline promise<void> use_ops(executor e)
{
  my_op0 o0; my_op1 o1; my_op2 o2; my_op3 o3; my_op4 o4; my_op5 o5; my_op6 o6;
  co_await use_op_(o0); co_await use_op_(o1); co_await use_op_(o2); co_await use_op_(o3); co_await use_op_(o4); co_await use_op_(o5); co_await use_op_(o6);
  co_await asio::post(e, use_op);
  asio::steady_timer tim{e};
  co_await tim.async_wait(use_op);
  (void)co_await as_tuple(tim.async_wait(use_op));
  (void)co_await as_result(tim.async_wait(use_op));
  asio::ip::tcp::socket s{e}; char b[4];
  std::size_t n = co_await s.async_read_some(asio::buffer(b), use_op);
  (void)co_await as_tuple(s.async_read_some(asio::buffer(b), use_op));
  using tt = asio::basic_waitable_timer<std::chrono::steady_clock, asio::wait_traits<std::chrono::steady_clock>, executor>;
  (void)co_await tim.async_wait(asio::deferred); (void)co_await s.async_read_some(asio::buffer(b), asio::deferred); co_await asio::post(e, asio::deferred);
  auto t2 = use_op_t::as_default_on(asio::steady_timer(e)); co_await t2.async_wait();
}
inline void use_task_fn(asio::io_context & ctx)
{
  spawn(ctx, ti(), asio::detached); spawn(ctx, tv(), asio::detached); spawn(ctx, tval(), asio::detached);
  spawn(ctx, ti(), asio::use_future); spawn(ctx, tv(), asio::use_future);
  spawn(ctx.get_executor(), ti(), asio::detached); spawn(ctx.get_executor(), tv(), asio::detached);
  spawn(ctx.get_executor(), ti(), [](std::exception_ptr, int){}); spawn(ctx.get_executor(), tv(), [](std::exception_ptr){});
  (void)run(ti()); (void)run(tval()); run(tv());
}

inline promise<void> use_spawn_op(executor e)
{
  int i = co_await spawn(e, ti(), use_op); co_await spawn(e, tv(), use_op);
}

inline promise<void> use_thread()
{
  auto t = thr(); co_await t; auto t2 = thr(); co_await std::move(t2); auto t3 = thr(); t3.cancel(); t3.join(); (void)t3.joinable(); t3.detach(); (void)t3.get_executor(); (void)t3.get_id();
  (void)co_await as_tuple(thr()); (void)co_await as_result(thr());
}

template<typename Ret> Ret coro_traits_body();
#define THIS_CORO_BODY                                               \
  (void)co_await this_coro::executor;                                \
  (void)co_await this_coro::allocator;                               \
  (void)co_await this_coro::cancellation_state;                      \
  (void)co_await this_coro::cancelled;                               \
  (void)co_await this_coro::reset_cancellation_state();              \
  (void)co_await this_coro::reset_cancellation_state(asio::enable_total_cancellation()); \
  (void)co_await this_coro::reset_cancellation_state(asio::enable_total_cancellation(), asio::enable_terminal_cancellation()); \
  (void)co_await this_coro::throw_if_cancelled();                    \
  (void)co_await this_coro::throw_if_cancelled(true);                \
  co_await asio::this_coro::reset_cancellation_state(asio::enable_total_cancellation()); \
  (void)co_await asio::this_coro::throw_if_cancelled();              \
  co_await asio::this_coro::throw_if_cancelled(true);                \
  co_await asio::post(use_op);

inline promise<void> tc_promise() { THIS_CORO_BODY }
inline task<void> tc_task() { THIS_CORO_BODY }
inline generator<int> tc_generator() { THIS_CORO_BODY co_return 1; }
inline detached tc_detached() { THIS_CORO_BODY }
inline cobalt::thread tc_thread() { THIS_CORO_BODY }

struct comp_op final : op<error_code, int>
{
  void initiate(completion_handler<error_code, int> h) override
  {
    (void)co_await this_coro::executor;
    (void)co_await asio::post(use_op); (void)co_await my_op2{};
    asio::steady_timer tim{asio::system_executor{}}; (void)co_await tim.async_wait(asio::deferred);
    co_return {error_code{}, 1};
  }
};
struct comp_op0 final : op<>
{
  void initiate(completion_handler<> h) override { co_await asio::post(use_op); co_return {}; }
};
inline promise<void> use_comp() { co_await comp_op{}; co_await comp_op0{}; }

inline promise<void> use_noop() { noop n; co_await n; noop<int> ni{1}; co_await ni; }

inline void use_thread_api(asio::io_context & ctx)
{
  this_thread::set_executor(ctx.get_executor()); (void)this_thread::get_executor(); (void)this_thread::has_executor();
  (void)this_thread::get_allocator(); (void)this_thread::get_default_resource(); this_thread::set_default_resource(this_thread::get_default_resource());
}

// experimental
inline int ctx_promise(experimental::context<promise<int>> c) { c.await(pv()); return c.await(pi()); }
inline void ctx_task(experimental::context<task<void>> c) { c.await(pv()); }
inline int ctx_gen(experimental::context<generator<int, int>> c) { c.yield(1); return c.await(pi()); }
inline int ctx_gen1(experimental::context<generator<int>> c) { c.yield(1); return 1; }
inline promise<void> use_race_gen(std::mt19937 & gen, std::vector<promise<int>> & vi)
{
  (void)co_await race(gen, pi(), pval()); (void)co_await race(gen, vi); (void)co_await race(std::mt19937{}, pi(), pval());
}
inline promise<void> use_ctx()
{
  int i = co_await experimental::make_context(&ctx_promise);
  co_await experimental::make_context(&ctx_task);
  auto g = experimental::make_context(&ctx_gen); i = co_await g(1);
  auto g1 = experimental::make_context(&ctx_gen1); i = co_await g1;
}

inline void use_resources(asio::io_context & ctx)
{
  char buf[128];
  detail::sbo_resource res{buf, sizeof buf, pmr::get_default_resource()};
  detail::sbo_allocator<int> al{&res};
  al.deallocate(al.allocate(1), 1);
  detail::sbo_allocator<void> av{al};
}

template<typename R> void irq(R & r, typename R::awaitable & a) { r.interrupt_await(); a.interrupt_await(); }
template void irq(detail::task_receiver<int> &, detail::task_receiver<int>::awaitable &);
template void irq(detail::task_receiver<void> &, detail::task_receiver<void>::awaitable &);
template void irq(detail::task_receiver<drv::val> &, detail::task_receiver<drv::val>::awaitable &);
template void irq(detail::promise_receiver<int> &, detail::promise_receiver<int>::awaitable &);
template void irq(detail::promise_receiver<void> &, detail::promise_receiver<void>::awaitable &);
template void irq(detail::generator_receiver<int, void> &, detail::generator_receiver<int, void>::awaitable &);
template void irq(detail::generator_receiver<int, drv::val> &, detail::generator_receiver<int, drv::val>::awaitable &);

inline void use_unique_handle()
{
  unique_handle<void> h; 
}
inline error_code use_err() { return make_error_code(error::moved_from); }
}

template struct boost::cobalt::channel<int>;
template struct boost::cobalt::channel<drv::val>;
