// the entry point of programs written with co_main
#include <boost/cobalt/main.hpp>
#include <boost/cobalt/this_coro.hpp>

boost::cobalt::main co_main(int argc, char * argv[])
{
  co_await boost::cobalt::this_coro::executor;
  co_return argc;
}
