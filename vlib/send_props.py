"""Sending a control packet and collecting its acknowledgements (T03) over UDP, TCP and NATS."""
from .driver import TU, Entry, VERIF
from . import pkt
from .pkt import Pkt
from .ack_props import AckS
from .gen_props import snake

CONC = VERIF + '/harness/conc'
CTL = Pkt('SeCtl', 'Control', [('bandwidth', 'r')], cam=dict(req_v='true', req_s='true', action_mode='execute'))

HEAD = '''#include "vs_net.h"
#include "vs_sched.h"
#include "se_ctl.hpp"
#include <vrtgen/utility.hpp>
using V = ns::packets::SeAckVX; using A = ns::packets::SeAckS; using C = ns::packets::SeCtl;
using Bytes = std::vector<uint8_t>;
template <class P> Bytes bytes(P &p) { auto d = p.data(); return net::copy(d.data(), d.size()); }
struct Reply { Bytes b; int rc = 0; };
// a reply: the requested kinds, another answer, cut short, a failure
static Reply reply(int kinds) {
  Reply r; int k = (int)vs_pick("reply", 0, kinds - 1);
  if (k == 4) { r.rc = -1; return r; }
  uint32_t sid = vs_u32("reply-stream"), mid = vs_u32("reply-id");
  if (k == 1) { A a; a.stream_id(sid); a.message_id(mid); a.bandwidth(1.0); r.b = bytes(a); }
  else { V v; v.stream_id(sid); v.message_id(mid); v.ack_v(true); r.b = bytes(v); }
  if (k == 2) r.b.resize((size_t)vs_pick("cut", 0, 2) * 7 + 1);
  if (k == 3) { static const uint16_t AN[] = {0, 1, 5, 7, 65535}; uint16_t n = AN[vs_pick("announced", 0, 4)]; r.b[2] = n >> 8; r.b[3] = n & 255; }
  return r;
}
enum Out { OK, THROWS };
// what one requested acknowledgement must become, consuming messages; reading the exact bytes with the class itself is the reference
template <class K> Out expect(const std::vector<Reply> &in, size_t &at, uint32_t id, std::optional<Bytes> &out) {
  while (true) {
    if (at >= in.size()) return THROWS;
    const Reply &r = in[at++]; if (r.rc < 0) return THROWS;
    vs_buf w(r.b.size()); memcpy(w.data(), r.b.data(), r.b.size()); std::span<const uint8_t> s{w.data(), r.b.size()};
    if (K::match(s).has_value()) return THROWS;
    try { K k{s}; if (k.message_id() != id) continue; out = bytes(k); return OK; } catch (const std::exception &) { return THROWS; }
  }
}
struct Want { bool thrown = false; size_t at = 0; std::optional<Bytes> v, a; };
static Want want(const std::vector<Reply> &in, uint32_t id, bool wv, bool wa) {
  Want w; 
  if (wv && expect<V>(in, w.at, id, w.v) != OK) { w.thrown = true; return w; }
  if (wa && expect<A>(in, w.at, id, w.a) != OK) w.thrown = true;
  return w;
}
static void compare(const Want &w, bool thrown, std::optional<V> &v, std::optional<A> &a, bool wv, bool wa) {
  bool late = vs::S().fired > 0;
  if (!late) vs_assert(thrown == w.thrown, thrown ? "refused-a-good-answer" : "accepted-a-wrong-answer");
  else vs_assert(thrown || !w.thrown, "accepted-a-wrong-answer");
  vs_assert(v.has_value() == wv && a.has_value() == wa, "requests-kept");
  if (!thrown) { if (wv && w.v) vs_assert(net::eq(bytes(*v), *w.v), "answer"); if (wa && w.a) vs_assert(net::eq(bytes(*a), *w.a), "second-answer"); }
}
static void command(C &c) { c.stream_id(vs_u32("stream")); c.message_id(vs_u32("id")); c.bandwidth(2.0); }
'''

UDP = HEAD + """
using S = vrtgen::socket::udp::v4;
static void udp(int nrep, int kinds, int preempt, int timeouts, bool fail) {
  vs::S().preempt = preempt; vs::S().timeouts = timeouts;
  S s; S::endpoint_type e(vs_u16("to")); s.dst(e); Bytes to = net::copy(&e.sockaddr(), sizeof e.sockaddr());
  C c; command(c); Bytes cb = bytes(c);
  bool wv = vs_bool("want-vx"), wa = vs_bool("want-s"); std::optional<V> v; std::optional<A> a; if (wv) v.emplace(); if (wa) a.emplace();
  std::vector<Reply> in((size_t)vs_pick("replies", 0, nrep)); for (auto &r : in) r = reply(kinds);
  for (auto &r : in) { net::Msg m; m.data = r.b; m.rc = r.rc; m.addr.resize(sizeof(sockaddr_in)); vs_bytes(m.addr.data(), m.addr.size(), "sender"); m.addr[0] = AF_INET; m.addr[1] = 0; net::E().in.push_back(m); }
  net::E().wait = [] { vs::block([] { return false; }, true); return false; };
  net::E().fail = fail; net::E().log.clear();
  Want w = want(in, c.message_id(), wv, wa); bool thrown = false;
  try { vrtgen::send_packet(s, c, v, a); } catch (const std::exception &) { thrown = true; }
  int sent = 0, got = 0; for (auto &l : net::E().log) { if (l.what == "send") { sent++; vs_assert(sent == 1 && net::eq(l.data, cb) && net::eq(l.addr, to), "sent"); } if (l.what == "receive") got++; }
  if (sent == 0) { vs_assert(fail && thrown, "send-failure-lost"); vs_reach("end"); return; }
  compare(w, thrown, v, a, wv, wa);
  if (!vs::S().fired) vs_assert((size_t)got == w.at, "messages-taken");
  vs_assert(net::eq(net::copy(&s.dst().sockaddr(), sizeof(s.dst().sockaddr())), to), "destination-kept");
  vs_assert(vs::all_done(), "threads-done"); vs_reach("end");
}
extern "C" void Se_udp_replies() { udp(NREP, 5, 0, 0, false); }
extern "C" void Se_udp_order() { udp(1, 1, 2, 1, true); }
"""

TCP = HEAD + """
using S = vrtgen::socket::tcp::v4;
static void tcp(int nrep, int kinds, int cuts, int preempt, int timeouts) {
  vs::S().preempt = preempt; vs::S().timeouts = timeouts;
  S s; C c; command(c); Bytes cb = bytes(c);
  bool wv = vs_bool("want-vx"), wa = vs_bool("want-s"); std::optional<V> v; std::optional<A> a; if (wv) v.emplace(); if (wa) a.emplace();
  std::vector<Reply> in((size_t)vs_pick("replies", 0, nrep)); for (auto &r : in) r = reply(kinds);
  Bytes all; for (auto &r : in) all.insert(all.end(), r.b.begin(), r.b.end());
  // the stream arrives in pieces of any sizes
  size_t at = 0;
  while (at < all.size()) { size_t left = all.size() - at, n = left; if (cuts-- > 0) n = (size_t)vs_pick("piece", 1, (int64_t)left); net::Msg m; m.rc = 0; m.data = net::copy(all.data() + at, n); net::E().in.push_back(m); at += n; }
  if (vs_bool("closed-by-peer")) { net::Msg m; m.rc = 0; net::E().in.push_back(m); }
  net::E().wait = [] { vs::block([] { return false; }, true); return false; };
  net::E().log.clear();
  Want w = want(in, c.message_id(), wv, wa); bool thrown = false;
  try { vrtgen::send_packet(s, c, v, a); } catch (const std::exception &) { thrown = true; }
  Bytes out; for (auto &l : net::E().log) if (l.what == "send") out.insert(out.end(), l.data.begin(), l.data.end());
  vs_assert(net::eq(out, cb), "sent");
  compare(w, thrown, v, a, wv, wa);
  if (!thrown) { size_t left = 0, want = 0; for (auto &m : net::E().in) left += m.data.size(); for (size_t i = w.at; i < in.size(); i++) want += in[i].b.size(); vs_assert(left == want, "bytes-taken"); }
  vs_assert(vs::all_done(), "threads-done"); vs_reach("end");
}
extern "C" void Se_tcp_replies() { tcp(NREP, 2, CUTS, 0, 0); }
extern "C" void Se_tcp_order() { tcp(1, 1, 0, 2, 1); }
// a connection may take any part of what it is given, or fail
extern "C" void Se_tcp_send() {
  S s; C c; command(c); Bytes cb = bytes(c); std::optional<V> v; bool thrown = false;
  net::E().fail = true; net::E().partial = true; net::E().log.clear();
  try { vrtgen::send_packet(s, c, v); } catch (const std::exception &) { thrown = true; }
  Bytes out; bool failed = false; for (auto &l : net::E().log) { if (l.what == "send") out.insert(out.end(), l.data.begin(), l.data.end()); if (l.what == "send-failed") failed = true; }
  vs_assert(thrown == failed, "send-failure"); vs_assert(failed ? out.size() < cb.size() && net::eq(out, cb.data(), out.size()) : net::eq(out, cb), "sent"); vs_reach("end");
}
"""

NATS = HEAD.replace('#include "vs_net.h"', '#include "vs_net.h"\n#include "vs_nats.h"') + """
#include <vrtgen/nats.hpp>
static void nats(int nrep, int kinds, int preempt, int timeouts, bool fail) {
  vs::S().preempt = preempt; vs::S().timeouts = timeouts;
  {
    vrtgen::nats::client s("nats://x"); vs_assert(s.new_inbox() == NATS_OK, "inbox"); auto *r = nn::E().live.at(0);
    C c; command(c); Bytes cb = bytes(c);
    bool wv = vs_bool("want-vx"), wa = vs_bool("want-s"); std::optional<V> v; std::optional<A> a; if (wv) v.emplace(); if (wa) a.emplace();
    std::vector<Reply> in((size_t)vs_pick("replies", 0, nrep)); for (auto &x : in) x = reply(kinds);
    nn::E().fail = fail; Want w = want(in, c.message_id(), wv, wa); bool thrown = false;
    size_t d = vs::spawn([&] { for (auto &x : in) { vs::yield(); nn::deliver(r, nn::make(x.b)); } });
    try { vrtgen::send_packet(s, "box", c, v, a); } catch (const std::exception &) { thrown = true; }
    vs::join(d);
    if (nn::E().last != NATS_OK) vs_assert(thrown && nn::E().pubs.empty(), "send-failure-lost");
    else {
      vs_assert(nn::E().pubs.size() == 1 && nn::E().pubs[0].subject == "box" && nn::E().pubs[0].reply == r->subject && net::eq(nn::E().pubs[0].data, cb), "sent");
      compare(w, thrown, v, a, wv, wa);
      if (!vs::S().fired) for (size_t i = w.at; i < in.size(); i++) { auto m = s.next_inbox_msg(std::chrono::milliseconds(0)); vs_assert(m != nullptr && net::eq(in[i].b, net::copy(m->data().data(), m->data().size())), "messages-taken"); }
    }
  }
  vs_assert(nn::E().msgs == 0 && nn::E().subs == 0, "released"); vs_assert(vs::all_done(), "threads-done"); vs_reach("end");
}
extern "C" void Se_nats_replies() { nats(NREP, 4, 0, 0, false); }
extern "C" void Se_nats_order() { nats(1, 1, 2, 1, true); }
"""

# acknowledgements as large as the transport allows
BIG = """#include "vs_net.h"
#include "vs_sched.h"
#include "vs_nats.h"
#include "se_big.hpp"
#include "se_big_ack.hpp"
#include <vrtgen/utility.hpp>
#include <vrtgen/nats.hpp>
using A = ns::packets::SeBigAckS; using C = ns::packets::SeBig; using Bytes = std::vector<uint8_t>;
template <class P> Bytes bytes(P &p) { auto d = p.data(); return net::copy(d.data(), d.size()); }
static void set(A &a, C &c, size_t n) {
  vrtgen::packing::IndexList<uint32_t> l; std::vector<uint32_t> e(n, 0x11223344); e[0] = vs_u32("first"); e[n - 1] = vs_u32("last");
  l.total_size(n + 2); l.entry_size((vrtgen::packing::EntrySize)4); l.num_entries(n); l.entries(e); a.stream_id(c.stream_id()); a.message_id(c.message_id()); a.index_list(l);
}
static void got(bool thrown, std::optional<A> &a, const Bytes &ab) { vs_assert(!thrown, "refused-a-good-answer"); if (thrown) return; vs_assert(a.has_value(), "requests-kept"); vs_assert(net::eq(bytes(*a), ab), "answer"); vs_reach("end"); }
static void command(C &c) { vs::S().preempt = 0; vs::S().timeouts = 0; c.stream_id(vs_u32("stream")); c.message_id(vs_u32("id")); }
extern "C" void Se_big_udp() {
  using S = vrtgen::socket::udp::v4; static const size_t N[] = {120, 365, 1015, 2100, 16300}; size_t n = N[vs_pick("n", 0, 4)];
  S s; S::endpoint_type e(vs_u16("to")); s.dst(e); C c; command(c); A r; set(r, c, n); Bytes ab = bytes(r); std::optional<A> a; a.emplace();
  net::Msg m; m.data = ab; m.rc = 0; m.addr.resize(sizeof(sockaddr_in)); m.addr[0] = AF_INET; net::E().in.push_back(m);
  net::E().wait = [] { vs::block([] { return false; }, true); return false; };
  bool thrown = false; try { vrtgen::send_packet(s, c, a); } catch (const std::exception &) { thrown = true; } got(thrown, a, ab);
}
extern "C" void Se_big_tcp() {
  using S = vrtgen::socket::tcp::v4; static const size_t N[] = {120, 365, 1015, 2100, 65520}; size_t n = N[vs_pick("n", 0, 4)];
  S s; C c; command(c); A r; set(r, c, n); Bytes ab = bytes(r); std::optional<A> a; a.emplace(); bool split = vs_pick("pieces", 0, 1);
  for (size_t at = 0; at < ab.size();) { size_t k = split ? std::min<size_t>(ab.size() - at, ab.size() / 3 + 1) : ab.size() - at; net::Msg m; m.rc = 0; m.data = net::copy(ab.data() + at, k); net::E().in.push_back(m); at += k; }
  net::E().wait = [] { vs::block([] { return false; }, true); return false; };
  bool thrown = false; try { vrtgen::send_packet(s, c, a); } catch (const std::exception &) { thrown = true; } got(thrown, a, ab);
}
extern "C" void Se_big_nats() {
  static const size_t N[] = {120, 365, 1015, 2100, 65520}; size_t n = N[vs_pick("n", 0, 4)];
  vrtgen::nats::client s("nats://x"); vs_assert(s.new_inbox() == NATS_OK, "inbox"); auto *r = nn::E().live.at(0); C c; command(c); A k; set(k, c, n); Bytes ab = bytes(k); std::optional<A> a; a.emplace();
  size_t d = vs::spawn([&] { vs::yield(); nn::deliver(r, nn::make(ab)); });
  bool thrown = false; try { vrtgen::send_packet(s, "box", c, a); } catch (const std::exception &) { thrown = true; } vs::join(d); got(thrown, a, ab);
}
"""


def T03(chk):
    T = chk.tier == 'thorough'
    d = pkt.generate(chk, yaml=CTL.yaml() + '\nSeAck: !Ack\n  responds_to: SeCtl\n')
    srcs = ['%s/%s.cpp' % (d, snake(n)) for n in ('SeCtl', 'SeAckVX', 'SeAckS')]
    import glob, os
    srcs = sorted(glob.glob(d + '/*.cpp'))
    for n, code, defs, es in (('udp', UDP, dict(NREP=3), ('replies', 'order')), ('tcp', TCP, dict(NREP=2, CUTS=2 if T else 1), ('replies', 'order', 'send')), ('nats', NATS, dict(NREP=3), ('replies', 'order'))):
        code = ''.join('#define %s %d\n' % kv for kv in defs.items()) + '#include "se_ack.hpp"\n' + code
        chk.add(TU('Se_' + n, code, [Entry('Se_%s_%s' % (n, e), expect_reach=['end']) for e in es], srcs=srcs, incs=[CONC, d]))
    y = 'SeBig: !Control\n  stream_id: !StreamID\n  cam: !ControlAcknowledgeMode {action_mode: execute, req_s: true}\n  cif_1: !CIF1\n    index_list: !IndexList {entry_size: 32}\nSeBigAck: !Ack\n  responds_to: SeBig\n'
    d = pkt.generate(chk, yaml=y, sub='big')
    chk.add(TU('Se_big', BIG, [Entry('Se_big_' + e, expect_reach=['end']) for e in ('udp', 'tcp', 'nats')], srcs=sorted(glob.glob(d + '/*.cpp')), incs=[CONC, d]))
    chk.bounds = 'one control packet, both acknowledgement kinds, up to 3 replies (stream: 2, split at %d arbitrary places), replies of the right and wrong kind, any identifiers, cut or misannounced or failing; one early timeout, two forced switches; UDP, TCP, NATS; acknowledgements of 0.5 to 64 kB (stream and NATS: 256 kB) with symbolic first and last entries' % (2 if T else 1)
