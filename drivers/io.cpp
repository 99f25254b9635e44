// Instantiates the io part of the library.
#include <boost/cobalt.hpp>
#include <boost/cobalt/io.hpp>
#include <boost/cobalt/io/ssl.hpp>
namespace drv_io
{
using namespace boost::cobalt;
namespace asio = boost::asio;
inline promise<void> use_io(io::stream_socket & s, io::readable_pipe & r, io::writable_pipe & w, io::stream_file & f, io::random_access_file & ra,
   io::steady_timer & st, io::system_timer & sy, io::signal_set & ss, io::serial_port & sp, io::datagram_socket & ds, io::seq_packet_socket & sq, io::resolver & res, io::ssl::stream & sl)
{
  char b[8]; 
  std::size_t n = co_await s.read_some(io::buffer(b)); n = co_await s.write_some(io::buffer(b, 2)); n = co_await io::read(s, io::buffer(b)); n = co_await io::write(s, io::buffer(b, 2));
  n = co_await r.read_some(io::buffer(b)); n = co_await w.write_some(io::buffer(b, 2)); n = co_await f.read_some(io::buffer(b)); n = co_await f.write_some(io::buffer(b, 2));
  n = co_await ra.read_some_at(0, io::buffer(b)); n = co_await ra.write_some_at(0, io::buffer(b, 2));
  n = co_await sp.read_some(io::buffer(b)); n = co_await sp.write_some(io::buffer(b, 2)); n = co_await ds.send(io::buffer(b, 2)); n = co_await ds.receive(io::buffer(b));
  asio::socket_base::message_flags fl{}; n = co_await sq.receive(0, fl, io::buffer(b)); n = co_await sq.receive(0, io::buffer(b)); n = co_await sq.send(0, io::buffer(b, 2));
  n = co_await sl.read_some(io::buffer(b)); n = co_await sl.write_some(io::buffer(b)); co_await sl.handshake(asio::ssl::stream_base::client); co_await sl.shutdown(); n = co_await sl.handshake(asio::ssl::stream_base::client, io::buffer(b, 2));
  co_await st.wait(); co_await sy.wait(); int sig = co_await ss.wait(); co_await s.wait(); auto eps = co_await res.resolve("", ""); co_await s.connect(eps); co_await s.connect(*eps.begin()); auto lk = co_await io::lookup("", "");
  co_await io::sleep(std::chrono::milliseconds(1)); co_await io::sleep(std::chrono::steady_clock::now()); co_await io::sleep(std::chrono::system_clock::now());
  (void)co_await as_tuple(s.read_some(io::buffer(b))); (void)co_await as_result(s.read_some(io::buffer(b)));
  (void)make_pair(io::local_stream); (void)make_pair(io::local_datagram); (void)make_pair(io::local_seqpacket);
  (void)sl.set_verify_callback([](bool, auto &) { return true; });
  io::read_at_op ro = ra.read_some_at(0, io::buffer(b)); io::read_all_at rao{ro}; n = co_await std::move(rao);
  io::write_at_op wo = ra.write_some_at(0, io::buffer(b, 2)); io::write_all_at wao{wo}; n = co_await std::move(wao);
}
inline void use_endpoint()
{
  io::endpoint e1{io::ip_v4, 0x7f000001, 80}; io::endpoint e2{io::ip_v6, "::1", 80}; io::endpoint e3{io::local_stream, "/x"}; io::endpoint e4{io::ip, "127.0.0.1", 80}; io::endpoint e5 = {io::ip_v4, "127.0.0.1", 8080};
  auto t = get<io::ip>(e1); auto t4 = get<io::ip_v4>(e1); auto t6 = get<io::ip_v6>(e1); auto l = get<io::local_stream>(e1);
  auto ti = get_if<io::ip>(&e1); auto t4i = get_if<io::ip_v4>(&e1); auto t6i = get_if<io::ip_v6>(&e1); auto li = get_if<io::local_stream>(&e1);
}
inline void use_buffers()
{
  std::vector<asio::mutable_buffer> mv; std::vector<asio::const_buffer> cv; 
  io::mutable_buffer_sequence ms{mv}; io::const_buffer_sequence cs{cv}; io::mutable_buffer_sequence m1{asio::mutable_buffer{}}; io::const_buffer_sequence c1{asio::const_buffer{}};
  ms += 1u; cs += 1u; for (std::size_t i = 0; i < 2; i++) { (void)ms.begin()[i]; (void)cs.begin()[i]; } { auto it = ms.begin(); ++it; it++; --it; it--; it += 1; it -= 1; (void)(it + 1); (void)(it - 1); (void)(it - it); (void)(it == it); (void)(it != it); (void)it->size(); } { auto it = cs.begin(); ++it; it++; --it; it--; it += 1; it -= 1; (void)(it + 1); (void)(it - 1); (void)(it - it); (void)(it == it); (void)(it != it); (void)it->size(); } ms = ms; cs = cs; auto msc = ms; auto csc = cs;
  (void)io::buffer_size(ms); (void)io::buffer_size(cs); for (auto b : ms) (void)b.size(); for (auto b : cs) (void)b.size();
  (void)(ms.begin() == ms.end()); (void)ms.is_registered(); (void)cs.is_registered();
  visit(ms, [](auto b){}); visit(cs, [](auto b){});
}
}
