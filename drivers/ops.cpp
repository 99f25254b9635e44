// One function per I/O operation: it makes the operation through the public interface and starts it (or asks whether it is ready).
#include <boost/cobalt.hpp>
#include <boost/cobalt/io.hpp>
#include <boost/cobalt/io/ssl.hpp>
namespace drv_ops
{
using namespace boost::cobalt;
namespace asio = boost::asio;
using boost::system::error_code;
using H1 = completion_handler<error_code>; using H2 = completion_handler<error_code, std::size_t>; using HI = completion_handler<error_code, int>;
using HE = completion_handler<error_code, io::endpoint>; using HS = completion_handler<error_code, io::endpoint_sequence>;
using R1 = handler<error_code>; using R2 = handler<error_code, std::size_t>;
using MB = io::mutable_buffer_sequence; using CB = io::const_buffer_sequence;

inline void stream_socket_read(io::stream_socket & s, MB b, H2 h) { auto op = s.read_some(b); op.initiate(std::move(h)); }
inline void stream_socket_write(io::stream_socket & s, CB b, H2 h) { auto op = s.write_some(b); op.initiate(std::move(h)); }
inline void readable_pipe_read(io::readable_pipe & s, MB b, H2 h) { auto op = s.read_some(b); op.initiate(std::move(h)); }
inline void writable_pipe_write(io::writable_pipe & s, CB b, H2 h) { auto op = s.write_some(b); op.initiate(std::move(h)); }
inline void stream_file_read(io::stream_file & s, MB b, H2 h) { auto op = s.io::stream_file::read_some(b); op.initiate(std::move(h)); }
inline void stream_file_write(io::stream_file & s, CB b, H2 h) { auto op = s.io::stream_file::write_some(b); op.initiate(std::move(h)); }
inline void random_access_file_read_at(io::random_access_file & s, std::uint64_t o, MB b, H2 h) { auto op = s.io::random_access_file::read_some_at(o, b); op.initiate(std::move(h)); }
inline void random_access_file_write_at(io::random_access_file & s, std::uint64_t o, CB b, H2 h) { auto op = s.io::random_access_file::write_some_at(o, b); op.initiate(std::move(h)); }
inline void serial_port_read(io::serial_port & s, MB b, H2 h) { auto op = s.read_some(b); op.initiate(std::move(h)); }
inline void serial_port_write(io::serial_port & s, CB b, H2 h) { auto op = s.write_some(b); op.initiate(std::move(h)); }
inline void datagram_socket_receive(io::datagram_socket & s, MB b, H2 h) { auto op = s.receive(b); op.initiate(std::move(h)); }
inline void datagram_socket_send(io::datagram_socket & s, CB b, H2 h) { auto op = s.send(b); op.initiate(std::move(h)); }
inline void seq_packet_receive(io::seq_packet_socket & s, asio::socket_base::message_flags f, MB b, H2 h) { auto op = s.receive(f, b); op.initiate(std::move(h)); }
inline void seq_packet_receive_flags(io::seq_packet_socket & s, asio::socket_base::message_flags f, asio::socket_base::message_flags & of, MB b, H2 h) { auto op = s.receive(f, of, b); op.initiate(std::move(h)); }
inline void seq_packet_send(io::seq_packet_socket & s, asio::socket_base::message_flags f, CB b, H2 h) { auto op = s.send(f, b); op.initiate(std::move(h)); }
inline void socket_wait(io::socket & s, io::socket::wait_type w, H1 h) { auto op = s.wait(w); op.initiate(std::move(h)); }
inline void socket_connect(io::socket & s, io::endpoint e, H1 h) { auto op = s.connect(e); op.initiate(std::move(h)); }
inline void socket_connect_range(io::socket & s, io::endpoint_sequence e, HE h) { auto op = s.connect(std::move(e)); op.initiate(std::move(h)); }
inline void signal_set_wait(io::signal_set & s, HI h) { auto op = s.wait(); op.initiate(std::move(h)); }
inline void steady_timer_wait(io::steady_timer & s, H1 h) { auto op = s.wait(); op.initiate(std::move(h)); }
inline void system_timer_wait(io::system_timer & s, H1 h) { auto op = s.wait(); op.initiate(std::move(h)); }
inline void resolver_resolve(io::resolver & s, std::string_view host, std::string_view service, io::resolver::flags f, HS h) { auto op = s.resolve(host, service, f); op.initiate(std::move(h)); }
inline void lookup(std::string_view host, std::string_view service, const executor & ex, io::resolver::flags f, HS h) { auto op = io::lookup(host, service, ex, f); op.initiate(std::move(h)); }
inline void steady_sleep_until(std::chrono::steady_clock::time_point t, H1 h) { auto op = io::sleep(t); op.initiate(std::move(h)); }
inline void system_sleep_until(std::chrono::system_clock::time_point t, H1 h) { auto op = io::sleep(t); op.initiate(std::move(h)); }
inline void sleep_for(std::chrono::steady_clock::duration d, H1 h) { auto op = io::sleep(d); op.initiate(std::move(h)); }
inline void ssl_read(io::ssl::stream & s, MB b, H2 h) { auto op = s.read_some(b); op.initiate(std::move(h)); }
inline void ssl_write(io::ssl::stream & s, CB b, H2 h) { auto op = s.write_some(b); op.initiate(std::move(h)); }
inline void ssl_handshake(io::ssl::stream & s, asio::ssl::stream_base::handshake_type t, H1 h) { auto op = s.handshake(t); op.initiate(std::move(h)); }
inline void ssl_handshake_buffer(io::ssl::stream & s, asio::ssl::stream_base::handshake_type t, CB b, H2 h) { auto op = s.handshake(t, b); op.initiate(std::move(h)); }
inline void ssl_shutdown(io::ssl::stream & s, H1 h) { auto op = s.shutdown(); op.initiate(std::move(h)); }

inline void ready_stream_socket_read(io::stream_socket & s, MB b, R2 r) { auto op = s.read_some(b); op.ready(std::move(r)); }
inline void ready_stream_file_write(io::stream_file & s, CB b, R2 r) { auto op = s.io::stream_file::write_some(b); op.ready(std::move(r)); }
inline void ready_random_access_file_read_at(io::random_access_file & s, std::uint64_t o, MB b, R2 r) { auto op = s.io::random_access_file::read_some_at(o, b); op.ready(std::move(r)); }
inline void ready_random_access_file_write_at(io::random_access_file & s, std::uint64_t o, CB b, R2 r) { auto op = s.io::random_access_file::write_some_at(o, b); op.ready(std::move(r)); }
template<class C> using fine = std::chrono::time_point<C, std::chrono::duration<long long, std::pico>>;
inline void steady_sleep_fine(fine<std::chrono::steady_clock> t, H1 h) { auto op = io::sleep(t); op.initiate(std::move(h)); }
inline void system_sleep_fine(fine<std::chrono::system_clock> t, H1 h) { auto op = io::sleep(t); op.initiate(std::move(h)); }
inline void sleep_fine_for(std::chrono::duration<long long, std::pico> d, H1 h) { auto op = io::sleep(d); op.initiate(std::move(h)); }
inline void system_sleep_for(std::chrono::system_clock::duration d, H1 h) { ::boost::cobalt::detail::io::system_sleep op{d}; op.initiate(std::move(h)); }
inline void ready_steady_timer(io::steady_timer & s, R1 r) { auto op = s.wait(); op.ready(std::move(r)); }
inline void ready_system_timer(io::system_timer & s, R1 r) { auto op = s.wait(); op.ready(std::move(r)); }
inline void ready_steady_sleep(std::chrono::steady_clock::time_point t, R1 r) { auto op = io::sleep(t); op.ready(std::move(r)); }
inline void ready_system_sleep(std::chrono::system_clock::time_point t, R1 r) { auto op = io::sleep(t); op.ready(std::move(r)); }
inline void ready_socket_wait(io::socket & s, io::socket::wait_type w, R1 r) { auto op = s.wait(w); op.ready(std::move(r)); }
inline void ready_ssl_handshake(io::ssl::stream & s, asio::ssl::stream_base::handshake_type t, R1 r) { auto op = s.handshake(t); op.ready(std::move(r)); }
inline void ready_ssl_handshake_buffer(io::ssl::stream & s, asio::ssl::stream_base::handshake_type t, CB b, R2 r) { auto op = s.handshake(t, b); op.ready(std::move(r)); }
inline void ready_ssl_shutdown(io::ssl::stream & s, R1 r) { auto op = s.shutdown(); op.ready(std::move(r)); }

// the step of a composed operation
inline void composed_read(io::stream_socket & s, MB b, H2 h) { auto op = io::read(s, b); op.step.initiate(std::move(h)); }
inline void composed_write(io::stream_socket & s, CB b, H2 h) { auto op = io::write(s, b); op.step.initiate(std::move(h)); }
inline void composed_read_at(io::random_access_file & s, std::uint64_t o, MB b, H2 h) { auto op = io::read_at(s, o, b); op.step.initiate(std::move(h)); }
inline void composed_write_at(io::random_access_file & s, std::uint64_t o, CB b, H2 h) { auto op = io::write_at(s, o, b); op.step.initiate(std::move(h)); }

// operations with an implementation of the user
inline void custom_read(void * t, MB b, io::read_op::implementation_t * i, io::read_op::try_implementation_t * y, H2 h) { io::read_op op{b, t, i, y}; op.initiate(std::move(h)); }
inline void custom_write(void * t, CB b, io::write_op::implementation_t * i, io::write_op::try_implementation_t * y, H2 h) { io::write_op op{b, t, i, y}; op.initiate(std::move(h)); }
inline void custom_read_at(void * t, std::uint64_t o, MB b, io::read_at_op::implementation_t * i, io::read_at_op::try_implementation_t * y, H2 h) { io::read_at_op op{o, b, t, i, y}; op.initiate(std::move(h)); }
inline void custom_write_at(void * t, std::uint64_t o, CB b, io::write_at_op::implementation_t * i, io::write_at_op::try_implementation_t * y, H2 h) { io::write_at_op op{o, b, t, i, y}; op.initiate(std::move(h)); }
inline void custom_wait(void * t, io::wait_op::implementation_t * i, io::wait_op::try_implementation_t * y, H1 h) { io::wait_op op{t, i, y}; op.initiate(std::move(h)); }
inline void ready_custom_read(void * t, MB b, io::read_op::implementation_t * i, io::read_op::try_implementation_t * y, R2 h) { io::read_op op{b, t, i, y}; op.ready(std::move(h)); }
inline void ready_custom_write(void * t, CB b, io::write_op::implementation_t * i, io::write_op::try_implementation_t * y, R2 h) { io::write_op op{b, t, i, y}; op.ready(std::move(h)); }
inline void ready_custom_read_at(void * t, std::uint64_t o, MB b, io::read_at_op::implementation_t * i, io::read_at_op::try_implementation_t * y, R2 h) { io::read_at_op op{o, b, t, i, y}; op.ready(std::move(h)); }
inline void ready_custom_write_at(void * t, std::uint64_t o, CB b, io::write_at_op::implementation_t * i, io::write_at_op::try_implementation_t * y, R2 h) { io::write_at_op op{o, b, t, i, y}; op.ready(std::move(h)); }
inline void ready_custom_wait(void * t, io::wait_op::implementation_t * i, io::wait_op::try_implementation_t * y, R1 h) { io::wait_op op{t, i, y}; op.ready(std::move(h)); }

// the option types of asio the accessors are named after
inline void option_types(asio::socket_base::debug *, asio::socket_base::do_not_route *, asio::socket_base::enable_connection_aborted *, asio::socket_base::keep_alive *,
  asio::socket_base::receive_buffer_size *, asio::socket_base::send_buffer_size *, asio::socket_base::receive_low_watermark *, asio::socket_base::send_low_watermark *,
  asio::socket_base::reuse_address *, asio::socket_base::linger *, asio::ip::tcp::no_delay *, asio::serial_port_base::baud_rate *, asio::serial_port_base::character_size *,
  asio::serial_port_base::flow_control *, asio::serial_port_base::parity *, asio::socket_base::bytes_readable *) {}
}
