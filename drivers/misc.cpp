// Instances of the owning coroutine handle and the errors for the analysis.
#include <boost/cobalt/unique_handle.hpp>
#include <boost/cobalt/error.hpp>
#include <boost/cobalt/detail/exception.hpp>
#include <coroutine>
#include <exception>
#include <utility>

namespace drv_misc
{
using namespace boost::cobalt;

struct prom
{
  std::suspend_always initial_suspend() noexcept { return {}; }
  std::suspend_always final_suspend() noexcept { return {}; }
  void unhandled_exception() {}
  void return_void() {}
  int value;
};
using noop_prom = std::noop_coroutine_promise;

template<typename T> void sink(std::coroutine_handle<T>);
void keep(void *);

template<typename T>
struct use
{
  using H = unique_handle<T>;
  static void scope(H & a)          { H b(std::move(a)); }
  static void assign(H & a, H & b)  { a = std::move(b); }
  static void clear(H & a)          { a = nullptr; }
  static bool is(H & a)             { return a ? true : false; }
  static bool eq(H & a)             { return a == nullptr; }
  static bool ne(H & a)             { return a != nullptr; }
  static bool none()                { H a; return a ? true : false; }
  static bool none2()               { H a(nullptr); return a ? true : false; }
  static void once(H & a)           { std::move(a).resume(); }
  static void once2(H & a)          { std::move(a)(); }
  static void more(const H & a)     { a.resume(); }
  static void more2(const H & a)    { a(); }
  static void * addr(const H & a)   { return a.address(); }
  static bool done(const H & a)     { return a.done(); }
  static void del(H & a)            { a.destroy(); }
  static auto rel(H & a)            { return a.release(); }
};
template<typename T>
struct use_owner
{
  using H = unique_handle<T>;
  static void reset(H & a)          { a.reset(); }
  static void reset_to(H & a, T * p){ a.reset(p); }
  static void made(T * p)           { H a(p); keep(a.get()); a.release(); }
  static void from(void * p)        { H a = H::from_address(p); keep(a.address()); a.release(); }
  static void gets(H & a)           { keep(a.get()); }
  static const void * getc(const H & a){ return a.get(); }
};
template<typename T>
struct use_promise
{
  using H = unique_handle<T>;
  static T & star(H & a)             { return *a; }
  static const T & cstar(const H & a){ return *a; }
  static T * arrow(H & a)            { return a.operator->(); }
  static const T * carrow(const H & a){ return a.operator->(); }
  static T & promise(H & a)          { return a.promise(); }
  static void from_promise(T & p)    { H a = H::from_promise(p); keep(a.get()); a.release(); }
};

template struct use<void>;
template struct use<prom>;
template struct use<noop_prom>;
template struct use_owner<void>;
template struct use_owner<prom>;
template struct use_promise<prom>;

boost::system::error_code code_of(error e) { return e; }
std::exception_ptr w0() { return detail::moved_from_exception(); }
}
