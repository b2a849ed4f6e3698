"""Endpoints (T01) and sockets (T02): the operating system is an environment whose every answer is symbolic."""
from .driver import TU, Entry, VERIF
from .gen_props import R

NET = '#include "vs_net.h"\n'
CONC = VERIF + '/harness/conc'

EP = NET + '''#include <vrtgen/socket/socket_endpoint.hpp>
#include <vrtgen/socket.hpp>
using namespace vrtgen;
template <int D> struct A { using S = sockaddr_in; static in_port_t port(const S &s) { return s.sin_port; } static int fam(const S &s) { return s.sin_family; } static const uint8_t *addr(const S &s) { return (const uint8_t *)&s.sin_addr; } static constexpr size_t n = 4; };
template <> struct A<AF_INET6> { using S = sockaddr_in6; static in_port_t port(const S &s) { return s.sin6_port; } static int fam(const S &s) { return s.sin6_family; } static const uint8_t *addr(const S &s) { return (const uint8_t *)&s.sin6_addr; } static constexpr size_t n = 16; };
struct Model { uint16_t port; uint8_t a[16]; };
template <int D, int T> void same(const vrtgen::socket::socket_endpoint<D, T> &e, const Model &m, int how) {
  using X = A<D>; const auto &s = e.sockaddr();
  vs_assert(X::fam(s) == D, "family"); vs_assert(e.port() == m.port, "port");
  uint8_t pb[2]; auto raw = X::port(s); memcpy(pb, &raw, 2); vs_assert(pb[0] == m.port >> 8 && pb[1] == (m.port & 255), "port-network-order");
  bool ok = true; for (size_t i = 0; i < X::n; i++) ok &= X::addr(s)[i] == m.a[i]; vs_assert(ok, "address");
  vs_assert(memcmp(&e.address(), m.a, X::n) == 0, "address-getter"); vs_assert(e.socklen() == sizeof(s), "socklen");
  // everything else of the address structure is zero
  uint8_t z[sizeof(s)]; memcpy(z, &s, sizeof s);
  bool zero = true; size_t ao = (size_t)(X::addr(s) - (const uint8_t *)&s); for (size_t i = 4; i < sizeof s; i++) if (i < ao || i >= ao + X::n) zero &= z[i] == 0; vs_assert(zero, "rest-zero");
}
inline void parsed(Model &m, size_t n, const uint8_t *now) { memcpy(m.a, now, n); }
// what inet_pton wrote last (the environment's symbolic answer), read back through the call log order
template <int D, int T> void endpoint() {
  using EPT = vrtgen::socket::socket_endpoint<D, T>;
  Model m{}; uint8_t zero[16] = {};
  uint16_t port = vs_u16("port");
  std::optional<EPT> e; int how = (int)vs_pick("constructor", 0, 2);
  static const char *TXT[] = {"10.0.0.1", "::1", "x"};
  if (how == 0) e.emplace();
  else if (how == 1) { e.emplace(port); m.port = port; }
  else {
    const char *t = TXT[vs_pick("text", 0, 2)]; size_t n0 = net::E().text.size();
    try { e.emplace(std::string(t), port); } catch (const std::runtime_error &) { vs_assert(vs_last_pton() <= 0, "refused-address"); vs_reach("refused"); return; }
    vs_assert(vs_last_pton() == 1, "accepted-address"); m.port = port; memcpy(m.a, vs_last_address(), A<D>::n);
    vs_assert(net::E().text.size() == n0 + 1 && net::E().text[n0].fd == D && net::E().text[n0].data == net::copy(t, strlen(t)), "text-passed");
  }
  same(*e, m, how);
  for (int i = 0; i < STEPS; i++) switch (vs_pick("op", 0, 4)) {
    case 0: m.port = vs_u16("new-port"); e->port(m.port); same(*e, m, 3); break;
    case 1: e->address(std::string()); memset(m.a, 0, 16); same(*e, m, 4); break;
    case 2: { const char *t = TXT[vs_pick("new-text", 0, 2)]; e->address(std::string(t)); if (vs_last_pton() == 1) memcpy(m.a, vs_last_address(), A<D>::n); else memset(m.a, 0, 16); vs_assert(net::E().text.back().fd == D && net::E().text.back().data == net::copy(t, strlen(t)), "text-passed"); same(*e, m, 5); break; }
    case 3: { EPT c(*e); same(c, m, 6); c.port(1); same(*e, m, 6); e->port(m.port); EPT d; d = *e; *e = d; same(d, m, 6); same(*e, m, 6); break; }
    default: { m.port = (uint16_t)PORTS[vs_pick("which", 0, 5)]; e->port(m.port); std::string s = e->to_string(); auto &l = net::E().text.back();
      vs_assert(l.what == "ntop" && l.fd == D && l.data == net::copy(m.a, A<D>::n), "text-of-address"); 
      if (l.addr.empty()) vs_assert(s.empty(), "no-text"); else { std::string want((const char *)l.addr.data(), l.addr.size()); want += ":"; want += PTXT[m.port == 0 ? 0 : m.port == 9 ? 1 : m.port == 10 ? 2 : m.port == 4991 ? 3 : m.port == 9999 ? 4 : 5]; vs_assert(s == want, "text"); } }
  }
  vs_reach("end");
}
'''

SOCK = NET + '''#include <vrtgen/socket.hpp>
using namespace vrtgen;
template <class S> void send_one(S &s, const std::vector<uint8_t> &d, ssize_t &r, std::vector<uint8_t> &to) {
  if constexpr (requires { s.listen(); }) { r = s.write_some(d.data(), d.size()); }
  else { typename S::endpoint_type e(vs_u16("to")); to = net::copy(&e.sockaddr(), sizeof e.sockaddr()); r = s.send_to(d.data(), d.size(), e); }
}
template <class S> void history(int domain, int type, int steps) {
  net::E().fail = true; net::E().notext = true;
  {
    std::optional<S> s;
    try { s.emplace(); } catch (const std::runtime_error &) { vs_assert(net::E().fds.empty(), "refused-but-open"); vs_reach("refused"); return; }
    vs_assert(net::E().fds.size() == 1 && s->native_handle() == 1000 && s->is_open(), "opened"); vs_assert(net::E().fds[0].domain == domain && net::E().fds[0].type == type, "kind-of-socket");
    vs_assert(net::E().fds[0].timeout == 3, "default-timeout");
    using EPT = typename S::endpoint_type; bool open = true; int conn = -1;
    std::vector<uint8_t> src = net::copy(&s->src().sockaddr(), sizeof(s->src().sockaddr())), dst = src;
    for (int i = 0; i < steps; i++) {
      size_t n0 = net::E().log.size(), nf = net::E().nfail; auto added = [&] { return net::E().log.size() - n0; };
      int op = (int)vs_pick("op", 0, open ? 8 : 2);
      if (op == 0) { s->close(); open = false; conn = -1; vs_assert(net::open_count() == 0, "close-closes"); }
      else if (op == 1) vs_assert(s->is_open() == open, "is-open");
      else if (op == 2) { EPT e(vs_u16("where")); auto a = net::copy(&e.sockaddr(), sizeof e.sockaddr()); bool d = vs_bool("dst"); if (d) { s->dst(e); dst = a; } else { s->src(e); src = a; } }
      else if (op == 3 || op == 4) {
        EPT e(vs_u16("where")); auto a = net::copy(&e.sockaddr(), sizeof e.sockaddr());
        bool r = op == 3 ? s->bind(e) : s->connect(e); auto &l = net::E().log.back();
        vs_assert(added() == 1 && l.what == (op == 3 ? "bind" : "connect") && l.fd == 1000 && net::eq(l.addr, a), "call"); vs_assert(r == (net::E().nfail == nf), "result");
        if (r) (op == 3 ? src : dst) = a;
      }
      else if (op == 5) { size_t t = (size_t)vs_range("seconds", 0, 100000); s->timeout(t); vs_assert((size_t)net::E().fds[0].timeout == t, "timeout"); }
      else if (op == 6) { int how = (int)vs_range("how", 0, 2); s->shutdown(how); vs_assert(added() == 1 && net::E().log.back().what == "shutdown" && net::E().log.back().fd == 1000 && net::E().log.back().data[0] == how, "shutdown"); }
      else if (op == 7) {
        std::vector<uint8_t> d((size_t)vs_pick("length", 0, 3) * 3), to; vs_bytes(d.data(), d.size(), "data"); net::E().partial = true; ssize_t r = -2; send_one(*s, d, r, to);
        auto &l = net::E().log.back(); vs_assert(added() == 1 && l.fd == (conn >= 0 ? conn : 1000), "sent-on");
        if (l.what == "send-failed") vs_assert(r == -1, "send-failed"); else { vs_assert(l.what == "send" && r == (ssize_t)l.data.size() && net::eq(l.data, d.data(), l.data.size()), "sent"); if (!to.empty()) vs_assert(net::eq(l.addr, to), "sent-to"); }
      }
      else {
        size_t k = (size_t)vs_pick("arrives", 0, 3) * 2; bool err = vs_bool("receive-fails"); net::Msg m; m.data.resize(k); vs_bytes(m.data.data(), k, "in"); m.rc = err ? -1 : 0;
        m.addr.resize(domain == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6)); vs_bytes(m.addr.data(), m.addr.size(), "from"); m.addr[0] = domain & 255; m.addr[1] = domain >> 8;
        net::E().in.clear(); net::E().in.push_back(m); size_t room = (size_t)vs_pick("room", 1, 4) * 2; vs_buf b(room); memset(b.data(), 0, room); ssize_t r; 
        if constexpr (requires { s->listen(); }) r = s->read_some(b.data(), room);
        else { EPT e; r = s->receive_from(b.data(), room, e); if (!err) { auto a = net::copy(&e.sockaddr(), sizeof e.sockaddr()); vs_assert(net::eq(a, m.addr), "from"); vs_assert(e.socklen() == sizeof(e.sockaddr()), "from-length"); } }
        vs_assert(added() == 1 && net::E().log.back().fd == (conn >= 0 ? conn : 1000), "received-on"); size_t want = k < room ? k : room; vs_assert(r == (err ? -1 : (ssize_t)want), "received");
        if (!err) vs_assert(!want || net::eq(net::copy(b.data(), want), m.data.data(), want), "received-bytes");
      }
      if constexpr (requires { s->listen(); }) if (open && vs_bool("server")) {
        size_t n1 = net::E().log.size(), nf1 = net::E().nfail;
        if (vs_bool("listen")) { bool r = s->listen(); vs_assert(net::E().log.size() == n1 + 1 && net::E().log.back().fd == 1000 && net::E().log.back().what == "listen" && r == (net::E().nfail == nf1), "listen"); }
        else { bool r = s->accept(); vs_assert(net::E().log[n1].what == "accept" && net::E().log[n1].fd == 1000 && r == (net::E().nfail == nf1), "accept");
          if (r) { conn = 1000 + (int)net::E().fds.size() - 1; dst = net::E().fds.back().peer; } vs_assert(net::open_count() == (conn >= 0 ? 2 : 1), "accepted-open"); }
      }
      vs_assert(s->is_open() == open, "is-open"); if (open) vs_assert(s->native_handle() == 1000, "handle");
      vs_assert(net::eq(net::copy(&s->src().sockaddr(), sizeof(s->src().sockaddr())), src), "source"); vs_assert(net::eq(net::copy(&s->dst().sockaddr(), sizeof(s->dst().sockaddr())), dst), "destination");
    }
  }
  vs_assert(net::open_count() == 0, "descriptor-leak"); vs_reach("end");
}
'''


def T01(chk):
    T = chk.tier == 'thorough'
    steps = 4 if T else 3
    code = EP.replace('template <int D, int T> void endpoint() {', 'static const int PORTS[] = {0, 9, 10, 4991, 9999, 65535}; static const char *PTXT[] = {"0", "9", "10", "4991", "9999", "65535"}; constexpr int STEPS = %d;\ntemplate <int D, int T> void endpoint() {' % steps)
    es = []
    for n, d, t in (('udp4', 'AF_INET', 'SOCK_DGRAM'), ('udp6', 'AF_INET6', 'SOCK_DGRAM'), ('tcp4', 'AF_INET', 'SOCK_STREAM')):
        code += 'extern "C" void Ep_%s() { endpoint<%s, %s>(); }\n' % (n, d, t)
        es.append(Entry('Ep_' + n, expect_reach=['end', 'refused']))
    for e in es: chk.add(TU(e.fn, code, [e]))
    chk.bounds = 'IPv4 and IPv6 endpoints; every constructor followed by %d arbitrary operations; every port, every address the text parser can return, parser failures; texts of six port numbers' % steps


def T02(chk):
    T = chk.tier == 'thorough'
    for n, c, d, t, k in (('udp4', 'udp::v4', 'AF_INET', 'SOCK_DGRAM', 3), ('udp6', 'udp::v6', 'AF_INET6', 'SOCK_DGRAM', 3 if T else 2), ('tcp4', 'tcp::v4', 'AF_INET', 'SOCK_STREAM', 2), ('tcp6', 'tcp::v6', 'AF_INET6', 'SOCK_STREAM', 2)):
        code = SOCK + 'extern "C" void Sk_%s() { history<vrtgen::socket::%s>(%s, %s, %d); }\n' % (n, c, d, t, k)
        chk.add(TU('Sk_' + n, code, [Entry('Sk_' + n, expect_reach=['end', 'refused'])]))
    chk.bounds = 'one UDP/TCP, IPv4/IPv6 socket; 1 to 2 (thorough: 3) operations, TCP each optionally followed by listen or accept; every call may fail, writes may be short; buffers up to 9 bytes'
