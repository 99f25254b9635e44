// Instances of the stackful contexts for the analysis: a promise and awaitables of which only the declarations are known.
#include <boost/asio/spawn.hpp>
#include <boost/asio/io_context.hpp>
#include <boost/cobalt/experimental/context.hpp>
#include <boost/cobalt/experimental/yield_context.hpp>
#include <coroutine>

namespace drv_ctx
{
namespace ex = boost::cobalt::experimental;
namespace asio = boost::asio;

template<typename R> struct aw_of
{
  aw_of(aw_of &&);
  ~aw_of();
  bool await_ready();
  R await_suspend(std::coroutine_handle<void>);
  int await_resume();
};
using aw_void = aw_of<void>;
using aw_bool = aw_of<bool>;
using aw_hnd  = aw_of<std::coroutine_handle<void>>;

struct initial { initial(initial &&) noexcept; ~initial(); bool await_ready() noexcept; void await_suspend(std::coroutine_handle<void>) noexcept; void await_resume() noexcept; };
struct final_  { final_(final_ &&) noexcept;  ~final_();  bool await_ready() noexcept; void await_suspend(std::coroutine_handle<void>) noexcept; void await_resume() noexcept; };
struct input {};
struct yielded { yielded(yielded &&); };

template<typename T> struct ret;
struct base
{
  base();
  ~base();
  initial initial_suspend();
  final_  final_suspend() noexcept;
  void unhandled_exception() noexcept;
  aw_void await_transform(input);
  aw_bool await_transform(aw_bool);
  aw_hnd  await_transform(aw_hnd);
  aw_of<void> yield_value(yielded);
};
template<typename T> struct prom : base { ret<T> get_return_object(); void return_value(T); };
template<> struct prom<void>     : base { ret<void> get_return_object(); void return_void(); };
struct lazy_prom : prom<int>
{
  std::suspend_always initial_suspend() noexcept;
};
template<typename T> struct ret { using promise_type = prom<T>; ret(ret &&); ~ret(); };
struct lazy { using promise_type = lazy_prom; lazy(ret<int> &&); lazy(lazy &&); ~lazy(); };

int  fn_int(ex::context<ret<int>>);
void fn_void(ex::context<ret<void>>);
int  fn_arg(ex::context<ret<int>, int> , int);
int  fn_lazy(ex::context<lazy>);

inline void make_int()  { auto r = ex::make_context(&fn_int); }
inline void make_void() { auto r = ex::make_context(&fn_void); }
inline void make_lazy() { auto r = ex::make_context(&fn_lazy); }

inline int  await_void(ex::context<ret<int>> c, input i) { return c.await(i); }
inline int  await_bool(ex::context<ret<int>> c, aw_bool a) { return c.await(std::move(a)); }
inline int  await_hnd (ex::context<ret<int>> c, aw_hnd a)  { return c.await(std::move(a)); }
inline auto yield_(ex::context<ret<int>> c, yielded v)  { return c.yield(std::move(v)); }
inline auto * promise_(ex::context<ret<int>> c) { return &c.promise(); }
inline void destroy_fiber(boost::context::fiber & f) { boost::context::fiber g(std::move(f)); }

inline int yield_void(aw_void & a, asio::yield_context y) { return ex::await(std::move(a), y); }
inline int yield_bool(aw_bool & a, asio::yield_context y) { return ex::await(std::move(a), y); }
inline int yield_hnd (aw_hnd  & a, asio::yield_context y) { return ex::await(std::move(a), y); }

struct prom_mem  { void * operator new(std::size_t); void operator delete(void *, std::size_t); };
struct prom_args { void * operator new(std::size_t, int); void operator delete(void *, std::size_t); };
inline void stacks(ex::detail::stack_allocator<boost::context::stack_traits, prom_mem, int> & a,
                   ex::detail::stack_allocator<boost::context::stack_traits, prom_args, int> & b)
{
  auto x = a.allocate(); a.deallocate(x);
  auto y = b.allocate(); b.deallocate(y);
}
using yield_handle = std::coroutine_handle<asio::yield_context>;
inline void resume_(yield_handle h)  { h.resume(); }
inline void destroy_(yield_handle h) { h.destroy(); }
}
