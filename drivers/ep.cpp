// Endpoints and buffers as a user makes and reads them.
#include <boost/cobalt.hpp>
#include <boost/cobalt/io.hpp>
#include <boost/asio/ip/tcp.hpp>
namespace drv_ep
{
using namespace boost::cobalt;
namespace asio = boost::asio;

struct seen { const void * data; std::size_t size; int family, type, protocol; };
inline void look(const io::endpoint & e, seen & s) { s.data = e.data(); s.size = e.size(); s.family = e.protocol().family(); s.type = e.protocol().type(); s.protocol = e.protocol().protocol(); }
inline void make_empty(io::endpoint * w, seen * s) { auto e = new (w) io::endpoint; look(*e, *s); }
inline void change(io::endpoint & e, io::protocol_type::type_t t, io::protocol_type::protocol_t p, seen * s) { e.set_type(t); e.set_protocol(p); look(e, *s); }
inline void change_size(io::endpoint & e, std::size_t n, seen * s) { e.resize(n); look(e, *s); }

inline void make_v4_number(std::uint32_t a, std::uint16_t n, io::endpoint * w, seen * s) { auto e = new (w) io::endpoint{io::tcp_v4, a, n}; look(*e, *s); }
inline void make_v4_text(std::string_view a, std::uint16_t n, io::endpoint * w, seen * s) { auto e = new (w) io::endpoint{io::udp_v4, a, n}; look(*e, *s); }
inline void make_v6_bytes(std::span<std::uint8_t, 16> a, std::uint16_t n, io::endpoint * w, seen * s) { auto e = new (w) io::endpoint{io::tcp_v6, a, n}; look(*e, *s); }
inline void make_v6_text(std::string_view a, std::uint16_t n, io::endpoint * w, seen * s) { auto e = new (w) io::endpoint{io::udp_v6, a, n}; look(*e, *s); }
inline void make_any_text(std::string_view a, std::uint16_t n, io::endpoint * w, seen * s) { auto e = new (w) io::endpoint{io::tcp, a, n}; look(*e, *s); }
inline void make_local(std::string_view a, io::endpoint * w, seen * s) { auto e = new (w) io::endpoint{io::local_seqpacket, a}; look(*e, *s); }
inline void make_other(asio::ip::tcp::endpoint & o, io::endpoint * w, seen * s) { auto e = new (w) io::endpoint{o}; look(*e, *s); }
inline void make_other_const(const asio::ip::tcp::endpoint & o, io::endpoint * w, seen * s) { auto e = new (w) io::endpoint{o}; look(*e, *s); }
inline void make_copy(const io::endpoint & o, io::endpoint * w, seen * s) { auto e = new (w) io::endpoint{o}; look(*e, *s); }
inline void read_protocol(const io::protocol_type & o, int * f, int * t, int * p) { *f = o.family(); *t = o.type(); *p = o.protocol(); }
inline void make_protocol(asio::ip::tcp o, int * f, int * t, int * p) { read_protocol(io::protocol_type{o}, f, t, p); }
inline void make_protocol_numbers(io::protocol_type::family_t a, io::protocol_type::type_t b, io::protocol_type::protocol_t c, int * f, int * t, int * p) { read_protocol(io::protocol_type{a, b, c}, f, t, p); }
inline bool same_protocol(io::protocol_type a, io::protocol_type b) { return a == b; }

inline auto get_if_v4(const io::endpoint & o) { return get_if<io::tcp_v4>(&o); }
inline auto get_if_v6(const io::endpoint & o) { return get_if<io::udp_v6>(&o); }
inline auto get_if_any(const io::endpoint & o) { return get_if<io::ip>(&o); }
inline auto get_if_local(const io::endpoint & o) { return get_if<io::local_datagram>(&o); }
inline auto get_v4(const io::endpoint & o) { return get<io::tcp_v4>(o); }
inline auto get_v6(const io::endpoint & o) { return get<io::udp_v6>(o); }
inline auto get_any(const io::endpoint & o) { return get<io::ip>(o); }
inline auto get_local(const io::endpoint & o) { return get<io::local_datagram>(o); }

#define PROTO(Name) inline void proto_##Name(int * f, int * t, int * p) { *f = io::Name.family(); *t = io::Name.type(); *p = io::Name.protocol(); }
PROTO(ip) PROTO(ip_v4) PROTO(ip_v6) PROTO(tcp) PROTO(tcp_v4) PROTO(tcp_v6) PROTO(udp) PROTO(udp_v4) PROTO(udp_v6) PROTO(icmp)
PROTO(local_stream) PROTO(local_datagram) PROTO(local_seqpacket) PROTO(local_protocol) PROTO(sctp) PROTO(sctp_v4) PROTO(sctp_v6)
}
namespace drv_ep
{
struct visitor
{
  void one(asio::const_buffer b); void one(asio::mutable_buffer b); void all(const io::const_buffer_sequence & s); void all(const io::mutable_buffer_sequence & s);
  void operator()(asio::const_buffer b) { one(b); }
  void operator()(const asio::mutable_buffer & b) { one(b); }
  void operator()(const io::const_buffer_sequence & b) { all(b); }
  void operator()(const io::mutable_buffer_sequence & b) { all(b); }
};
inline void visit_mutable(const io::mutable_buffer_sequence & s, visitor & v) { visit(s, v); }
inline void visit_const(const io::const_buffer_sequence & s, visitor & v) { visit(s, v); }
}
