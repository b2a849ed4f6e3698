"""Generated controllees (T05) and controllers (T06): every received sequence, request, split and interleaving."""
import glob
from .driver import TU, Entry, VERIF
from . import pkt

CONC = VERIF + '/harness/conc'

YAML = '''Co: !Control
  stream_id: !StreamID
  class_id: !ClassID {oui: FF-EE-DD, information_code: 1, packet_code: 1}
  cam: !ControlAcknowledgeMode {req_v: optional, req_x: optional, req_s: optional, action_mode: execute}
  controllee_id: word
  controller_id: word
  cif_0: !CIF0 {bandwidth: required}
CoAck: !Ack
  responds_to: Co
Cx: !Control
  stream_id: !StreamID
  class_id: !ClassID {oui: FF-EE-DD, information_code: 1, packet_code: 2}
  cam: !ControlAcknowledgeMode {req_x: true, req_w: true, req_er: true, action_mode: execute}
  cif_0: !CIF0 {gain: optional}
CxAck: !Ack
  responds_to: Cx
Cs: !Control
  stream_id: !StreamID
  class_id: !ClassID {oui: FF-EE-DD, information_code: 1, packet_code: 3}
  cam: !ControlAcknowledgeMode {req_s: true, action_mode: none}
  cif_0: !CIF0 {gain: required}
CsAck: !Ack
  responds_to: Cs
Cn: !Control
  stream_id: !StreamID
  class_id: !ClassID {oui: FF-EE-DD, information_code: 1, packet_code: 4}
  cam: !ControlAcknowledgeMode {action_mode: dry-run, req_v: true}
  cif_0: !CIF0 {bandwidth: optional}
CnAck: !Ack
  responds_to: Cn
Da: !Data
  stream_id: !StreamID
  class_id: !ClassID {oui: FF-EE-DD, information_code: 1, packet_code: 5}
Ct: !Context
  stream_id: !StreamID
  class_id: !ClassID {oui: FF-EE-DD, information_code: 1, packet_code: 6}
  cif_0: !CIF0 {bandwidth: required, gain: optional}
Info: !InformationClass
  packet_classes: [Co, CoAck, Cx, CxAck, Cs, CsAck, Cn, CnAck, Da, Ct]
'''
# no controller identifiers, nothing but controls
YAML1 = '''Cx: !Control
  stream_id: !StreamID
  cam: !ControlAcknowledgeMode {req_x: true, action_mode: execute}
  cif_0: !CIF0 {gain: optional}
CxAck: !Ack
  responds_to: Cx
Info: !InformationClass
  packet_classes: [Cx, CxAck]
'''

HEAD = '''#include "vs_net.h"
#include "vs_sched.h"
#ifdef NATS
#include "vs_nats.h"
#endif
#include "Controllee_base.hpp"
#include "da.hpp"
#include "ct.hpp"
using namespace ns::packets;
using Bytes = std::vector<uint8_t>;
template <class P> Bytes bytes(P &p) { auto d = p.data(); return net::copy(d.data(), d.size()); }
// a message: one of the controls with any requests and identifiers, another packet, or a control cut short or announcing a wrong size
struct In { Bytes b; int kind = -1; int rc = 0; };
static In incoming(int kinds) {
  In r; int k = (int)vs_pick("message", 0, kinds - 1); uint32_t sid = vs_u32("stream"), mid = vs_u32("id");
  switch (k) {
    case 1: { Cx c; c.stream_id(sid); c.message_id(mid); if (vs_bool("with-gain")) { vrtgen::packing::Gain g; g.stage_1(2.0); c.gain(g); } r.b = bytes(c); r.kind = 1; break; }
    case 2: { Cs c; c.stream_id(sid); c.message_id(mid); r.b = bytes(c); r.kind = 2; break; }
    case 3: { Cn c; c.stream_id(sid); c.message_id(mid); r.b = bytes(c); r.kind = 3; break; }
    case 4: { Da c; c.stream_id(sid); r.b = bytes(c); break; }
    default: { Co c; c.stream_id(sid); c.message_id(mid); c.controllee_id(vs_u32("controllee")); c.controller_id(vs_u32("controller")); auto cam = c.cam();
      bool v = vs_bool("req-v"), x = vs_bool("req-x"), s = vs_bool("req-s"); c.req_v(v); c.req_x(x); c.req_s(s); c.bandwidth(3.0); r.b = bytes(c); r.kind = 0; break; }
  }
  if (k == 5) { static const size_t CUT[] = {1, 4, 15, 44}; size_t n = CUT[vs_pick("cut", 0, 3)]; if (n >= r.b.size()) n = r.b.size() - 4; r.b.resize(n); r.kind = -1; }
  if (k == 6) { static const int AN[] = {0, 1, 10, 100}; int n = AN[vs_pick("announced", 0, 3)]; r.b[2] = (uint8_t)(n >> 8); r.b[3] = (uint8_t)n; r.kind = -1; }
  if (k == 7) { Cx c; c.stream_id(sid); c.message_id(mid); r.b = bytes(c); r.b[r.b.size() - 3] = 0x80; r.kind = -1; }       // a field announced that is not there
  if (k == 8) { r.rc = -1; r.kind = -1; }
  return r;
}
static uint32_t at32(const Bytes &b, size_t i) { return (uint32_t)be(&b[i], 4); }
// what the callbacks answer, before the identifiers are filled in
static CoAckVX co_vx(bool v) { CoAckVX a; if (vs::S().t.size()) {} a.partial_action(v); return a; }
static CoAckS co_s() { CoAckS a; a.bandwidth(7.0); return a; }
static CxAckVX cx_x() { CxAckVX a; vrtgen::packing::WarningErrorFields w; w.device_failure(true); a.gain_warnings(w); return a; }
static CsAckS cs_s() { CsAckS a; vrtgen::packing::Gain g; g.stage_2(1.0); a.gain(g); return a; }
static CnAckVX cn_v() { CnAckVX a; return a; }
struct Call { char what; Bytes packet; };
struct K : ns::controllee::Controllee_base {
  using ns::controllee::Controllee_base::Controllee_base;
  std::vector<Call> calls;
  auto validate_co(Co &p) -> CoAckVX override { calls.push_back({'v', bytes(p)}); return co_vx(true); }
  auto execute_co(Co &p) -> std::tuple<CoAckVX, CoAckS> override { calls.push_back({'x', bytes(p)}); return {co_vx(false), co_s()}; }
  auto execute_cx(Cx &p) -> CxAckVX override { calls.push_back({'X', bytes(p)}); return cx_x(); }
  auto execute_cs(Cs &p) -> CsAckS override { calls.push_back({'S', bytes(p)}); return cs_s(); }
  auto validate_cn(Cn &p) -> CnAckVX override { calls.push_back({'V', bytes(p)}); return cn_v(); }
  ~K() override { vrt_stop(); }
};
struct Out { Bytes b; size_t to; };
template <class A> static void answer(std::vector<Out> &o, A a, const In &in, size_t to, bool ids) {
  a.stream_id(at32(in.b, 4)); a.message_id(at32(in.b, 20));
  if constexpr (requires { a.controllee_id(1u); }) if (ids) { a.controllee_id(at32(in.b, 24)); a.controller_id(at32(in.b, 28)); }
  o.push_back({bytes(a), to});
}
static void expect(const std::vector<In> &in, std::vector<Call> &calls, std::vector<Out> &o) {
  for (size_t i = 0; i < in.size(); i++) {
    const In &m = in[i];
    if (m.kind == 0) { uint32_t cam = at32(m.b, 16); bool v = cam >> 20 & 1, x = cam >> 19 & 1, s = cam >> 18 & 1;
      if (v) { calls.push_back({'v', m.b}); auto a = co_vx(true); a.ack_v(true); answer(o, a, m, i, true); }
      if (x || s) { calls.push_back({'x', m.b}); if (x) { auto a = co_vx(false); a.ack_x(true); answer(o, a, m, i, true); } if (s) answer(o, co_s(), m, i, true); } }
    if (m.kind == 1) { calls.push_back({'X', m.b}); auto a = cx_x(); a.ack_x(true); answer(o, a, m, i, false); }
    if (m.kind == 2) { calls.push_back({'S', m.b}); answer(o, cs_s(), m, i, false); }
    if (m.kind == 3) { calls.push_back({'V', m.b}); auto a = cn_v(); a.ack_v(true); answer(o, a, m, i, false); }
  }
}
static void same(const std::vector<Call> &a, const std::vector<Call> &b) { vs_assert(a.size() == b.size(), "calls"); for (size_t i = 0; i < a.size() && i < b.size(); i++) vs_assert(a[i].what == b[i].what && net::eq(a[i].packet, b[i].packet), "call"); }
static void sent(const std::vector<Out> &o, const std::vector<Bytes> &to, bool addressed) {
  size_t k = 0; Bytes stream, want;
  for (auto &l : net::E().log) if (l.what == "send") {
    if (addressed) { vs_assert(k < o.size() && net::eq(l.data, o[k].b), "answer"); if (k < o.size()) vs_assert(net::eq(l.addr, to[o[k].to]), "answered-to"); k++; }
    else stream.insert(stream.end(), l.data.begin(), l.data.end()); }
  if (addressed) vs_assert(k == o.size(), "answers"); else { for (auto &x : o) want.insert(want.end(), x.b.begin(), x.b.end()); vs_assert(net::eq(stream, want), "answers"); }
}
static bool idle() { vs::block([] { return false; }, true); return false; }
'''

CEE = {
'udp': '''
static void run(int n, int kinds, int preempt) {
  vs::S().preempt = preempt; vs::S().timeouts = 0; std::vector<In> in((size_t)vs_pick("messages", 1, n)); for (auto &m : in) m = incoming(kinds);
  std::vector<Bytes> to;
  for (auto &m : in) { net::Msg x; x.data = m.b; x.rc = m.rc; x.addr.resize(sizeof(sockaddr_in)); vs_bytes(x.addr.data(), x.addr.size(), "sender"); x.addr[0] = AF_INET; x.addr[1] = 0; to.push_back(x.addr); net::E().in.push_back(x); }
  net::E().wait = idle; net::E().notext = true; std::vector<Call> wc; std::vector<Out> wo; expect(in, wc, wo); std::vector<Call> calls;
  { vrtgen::socket::udp::v4::endpoint_type e((uint16_t)5000); K k(e); net::E().log.clear(); k.vrt_listen(); k.vrt_listen(); vs::block([] { return net::E().in.empty(); }); if (vs_bool("stop")) k.vrt_stop(); else vs::yield(); k.vrt_stop(); calls = k.calls; }
  same(calls, wc); sent(wo, to, true); vs_assert(vs::all_done(), "threads-done"); vs_assert(net::open_count() == 0, "sockets-closed"); vs_reach("end");
}
''',
'tcp': '''
static void run(int n, int kinds, int preempt, int split = 0, bool partial = false) {
  vs::S().preempt = preempt; vs::S().timeouts = 0; std::vector<In> in((size_t)vs_pick("messages", 1, n)); for (auto &m : in) m = incoming(kinds);
  Bytes all; for (auto &m : in) all.insert(all.end(), m.b.begin(), m.b.end()); int cuts = split, pauses = split ? 1 : 0; size_t at = 0;
  while (at < all.size()) { size_t left = all.size() - at, n = left; if (cuts-- > 0) { static const size_t CUT[] = {0, 1, 3, 4, 7, 24, 46, 49}; n = CUT[vs_pick("piece", 0, PIECES)]; if (n == 0 || n > left) n = left; } net::Msg m; m.rc = 0; m.data = net::copy(all.data() + at, n); net::E().in.push_back(m); at += n; if (pauses-- > 0 && vs_bool("pause")) { net::Msg f; f.rc = -1; net::E().in.push_back(f); } }
  net::E().wait = idle; net::E().notext = true; std::vector<Call> wc; std::vector<Out> wo; expect(in, wc, wo); std::vector<Call> calls;
  { vrtgen::socket::tcp::v4::endpoint_type e((uint16_t)5000); K k(e); vs_assert(k.cmd_socket().listen() && k.cmd_socket().accept(), "accepted"); net::E().partial = partial; net::E().shorts = 2; net::E().log.clear(); k.vrt_listen(); vs::block([] { return net::E().in.empty(); }); k.vrt_stop(); calls = k.calls; }
  same(calls, wc); sent(wo, {}, false); vs_assert(vs::all_done(), "threads-done"); vs_assert(net::open_count() == 0, "sockets-closed"); vs_reach("end");
}
''',
'nats': '''
static void run(int n, int kinds, int preempt) {
  vs::S().preempt = preempt; vs::S().timeouts = 0; std::vector<In> in((size_t)vs_pick("messages", 1, n)); for (auto &m : in) { m = incoming(kinds); if (m.b.empty()) vs_end(); }
  std::vector<Call> wc; std::vector<Out> wo; expect(in, wc, wo); std::vector<Call> calls; std::vector<std::string> rep; for (auto &m : in) { (void)m; rep.push_back(vs_bool("wants-reply") ? (rep.size() ? "r1" : "r0") : ""); }
  { K k("nats://x", "cmd"); auto *s = nn::E().live.at(0); vs_assert(s->subject == "cmd", "subject");
    k.vrt_listen(); for (size_t i = 0; i < in.size(); i++) { vs::yield(); nn::deliver(s, nn::make(in[i].b, rep[i])); }
    if (preempt == 0) vs::block([&] { return k.calls.size() == wc.size(); }); vs::block([] { return false; }, true); k.vrt_stop(); calls = k.calls; }
  same(calls, wc); size_t j = 0;
  for (auto &o : wo) if (!rep[o.to].empty()) { vs_assert(j < nn::E().pubs.size() && nn::E().pubs[j].subject == rep[o.to] && net::eq(nn::E().pubs[j].data, o.b), "answer"); j++; }
  vs_assert(j == nn::E().pubs.size(), "answers"); vs_assert(vs::all_done(), "threads-done"); vs_assert(nn::E().msgs == 0 && nn::E().subs == 0 && nn::E().conns == 0, "released"); vs_reach("end");
}
'''}


def T05(chk):
    T = chk.tier == 'thorough'
    for k in ('udp', 'tcp', 'nats'):
        d = pkt.generate(chk, yaml=YAML, sub='cee_' + k, opts=['--cmd-socket', k])
        srcs = sorted(glob.glob(d + '/*.cpp'))
        kinds = {'udp': 9, 'tcp': 5, 'nats': 8}[k]
        code = ('#define NATS 1\n' if k == 'nats' else '#define PIECES 7\n') + HEAD + CEE[k]
        es = {'one': 'run(1, %d, 0)' % kinds, 'two': 'run(2, %d, 0)' % (kinds if T else min(kinds, 6)), 'order': 'run(1, 2, 2)'}
        if k == 'tcp':
            es.update(split='run(1, 2, 0, %d)' % (3 if T else 2), joined='run(2, 2, 0, 1)', partial='run(1, 2, 0, 0, true)')
        code += ''.join('extern "C" void Ap_%s_%s() { %s; }\n' % (k, e, c) for e, c in es.items())
        chk.add(TU('Ap_' + k, code, [Entry('Ap_%s_%s' % (k, e), expect_reach=['end']) for e in es], srcs=srcs, incs=[CONC, d]))
    d = pkt.generate(chk, yaml=YAML1, sub='cee_bare', opts=['--cmd-socket', 'udp'])
    head = HEAD[:HEAD.index('// a message:')].replace('#include "da.hpp"\n#include "ct.hpp"\n', '') + 'static bool idle() { vs::block([] { return false; }, true); return false; }\n'
    chk.add(TU('Ap_bare', head + BARE, [Entry('Ap_bare', expect_reach=['end'])], srcs=sorted(glob.glob(d + '/*.cpp')), incs=[CONC, d]))


BARE = """
// a controllee whose controls carry no identifiers and whose information class holds nothing else
struct K1 : ns::controllee::Controllee_base {
  using ns::controllee::Controllee_base::Controllee_base; std::vector<Bytes> calls;
  auto execute_cx(Cx &p) -> CxAckVX override { calls.push_back(bytes(p)); CxAckVX a; return a; }
  ~K1() override { vrt_stop(); }
};
extern "C" void Ap_bare() {
  vs::S().preempt = 1; vs::S().timeouts = 0; uint32_t sid = vs_u32("stream"), mid = vs_u32("id"); Cx c; c.stream_id(sid); c.message_id(mid); vrtgen::packing::Gain g; g.stage_1(2.0); c.gain(g); Bytes b = bytes(c);
  CxAckVX a; a.ack_x(true); a.stream_id(sid); a.message_id(mid); Bytes want = bytes(a);
  net::Msg m; m.rc = 0; m.data = b; m.addr.resize(sizeof(sockaddr_in)); vs_bytes(m.addr.data(), m.addr.size(), "sender"); m.addr[0] = AF_INET; m.addr[1] = 0; net::E().in.push_back(m); net::E().wait = idle; net::E().notext = true;
  { vrtgen::socket::udp::v4::endpoint_type e((uint16_t)5000); K1 k(e); net::E().log.clear(); k.vrt_listen(); vs::block([] { return net::E().in.empty(); }); k.vrt_stop(); vs_assert(k.calls.size() == 1 && net::eq(k.calls[0], b), "call"); }
  int n = 0; for (auto &l : net::E().log) if (l.what == "send") { n++; vs_assert(net::eq(l.data, want) && net::eq(l.addr, m.addr), "answer"); } vs_assert(n == 1, "answers");
  vs_assert(vs::all_done() && net::open_count() == 0, "released"); vs_reach("end");
}
"""

# ---- controllers
CHEAD = HEAD[:HEAD.index('// a message:')].replace('Controllee_base.hpp', 'Controller.hpp') + """
static bool idle() { vs::block([] { return false; }, true); return false; }
static uint32_t at32(const Bytes &b, size_t i) { return (uint32_t)be(&b[i], 4); }
struct Rep { std::vector<Bytes> all; Bytes v, x, s; };
static std::vector<uint8_t> addr() { std::vector<uint8_t> a(sizeof(sockaddr_in)); vs_bytes(a.data(), a.size(), "sender"); a[0] = AF_INET; a[1] = 0; return a; }
template <class VX, class S> Rep replies(uint32_t mid, bool v, bool x, bool s, bool stray) {
  Rep r; uint32_t sid = vs_u32("reply-stream");
  auto fill = [&](auto &a, uint32_t m) { a.stream_id(sid); a.message_id(m); if constexpr (requires { a.controllee_id(1u); }) { a.controllee_id(vs_u32("reply-controllee")); a.controller_id(vs_u32("reply-controller")); } return bytes(a); };
  // an acknowledgement of an earlier command that came late
  auto late = [&](auto &&a) { if (stray) r.all.push_back(fill(a, mid - 1)); stray = false; };
  if constexpr (!std::is_void_v<VX>) { if constexpr (requires(VX a) { a.ack_v(true); }) if (v) { VX a; a.ack_v(true); late(VX(a)); r.v = fill(a, mid); r.all.push_back(r.v); } if constexpr (requires(VX a) { a.ack_x(true); }) if (x) { VX a; a.ack_x(true); late(VX(a)); a.partial_action(vs_bool("partial")); r.x = fill(a, mid); r.all.push_back(r.x); } }
  if constexpr (!std::is_void_v<S>) { if (s) { S a; late(S(a)); r.s = fill(a, mid); r.all.push_back(r.s); } }
  return r;
}
struct Sent { Bytes cmd; Rep rep; };
template <class A> void got(const std::optional<A> &a, const Bytes &want, bool asked, const char *w) { vs_assert(a.has_value() == asked, w); if (asked && a) { A c = *a; vs_assert(net::eq(bytes(c), want), w); } }
template <class E> Sent one(ns::Controller &k, uint32_t n, int kinds, E env) {
  int c = (int)vs_pick("command", 0, kinds - 1); Sent r; uint32_t sid = vs_u32("stream"), old = vs_u32("old-id"); bool stray = n > 1 && vs_bool("late-answer");
  auto stamp = [&](Bytes b) { b[20] = n >> 24; b[21] = n >> 16 & 255; b[22] = n >> 8 & 255; b[23] = n & 255; return b; };
  switch (c) {
    case 1: { Cx p; p.stream_id(sid); p.message_id(old); vrtgen::packing::Gain g; g.stage_1(2.0); if (vs_bool("gain")) p.gain(g); r.cmd = stamp(bytes(p)); r.rep = replies<CxAckVX, void>(n, false, true, false, stray); env(r); auto t = k.send_cx(p); static_assert(std::tuple_size_v<decltype(t)> == 1); got<CxAckVX>(std::get<0>(t), r.rep.x, true, "execution"); vs_assert(p.message_id() == n, "id"); break; }
    case 2: { Cs p; p.stream_id(sid); p.message_id(old); r.cmd = stamp(bytes(p)); r.rep = replies<void, CsAckS>(n, false, false, true, stray); env(r); auto t = k.send_cs(p); static_assert(std::tuple_size_v<decltype(t)> == 1); got<CsAckS>(std::get<0>(t), r.rep.s, true, "state"); break; }
    case 3: { Cn p; p.stream_id(sid); p.bandwidth(5.0); r.cmd = stamp(bytes(p)); r.rep = replies<CnAckVX, void>(n, true, false, false, stray); env(r); auto t = k.send_cn(p); static_assert(std::tuple_size_v<decltype(t)> == 1); got<CnAckVX>(std::get<0>(t), r.rep.v, true, "validation"); break; }
    default: { Co p; p.stream_id(sid); p.message_id(old); p.controllee_id(vs_u32("controllee")); p.controller_id(vs_u32("controller")); bool v = vs_bool("req-v"), x = vs_bool("req-x"), s = vs_bool("req-s"); p.req_v(v); p.req_x(x); p.req_s(s); p.bandwidth(3.0); r.cmd = stamp(bytes(p)); { uint32_t me = vs_u32("own-id"); k.controller_id(me); vs_assert(k.controller_id() == me, "own-id"); for (int i = 0; i < 4; i++) r.cmd[28 + i] = me >> (24 - 8 * i) & 255; } if (!v && !x && !s) stray = false;
      r.rep = replies<CoAckVX, CoAckS>(n, v, x, s, stray); env(r); auto t = k.send_co(p); static_assert(std::tuple_size_v<decltype(t)> == 3); got<CoAckVX>(std::get<0>(t), r.rep.v, v, "validation"); got<CoAckVX>(std::get<1>(t), r.rep.x, x, "execution"); got<CoAckS>(std::get<2>(t), r.rep.s, s, "state"); break; }
  }
  return r;
}
"""

CRECV = """
static void receive(int n, int kinds, int preempt, bool cycles) {
  vs::S().preempt = preempt; vs::S().timeouts = 0; net::E().wait = idle; net::E().notext = true; struct Got { char what; Bytes b; }; std::vector<Got> want, calls; bool ld = vs_bool("listens-data"), lc = vs_bool("listens-context"), throws = false;
  auto fill = [&](int k) { for (int i = 0; i < k; i++) { Bytes b; char w = 0; int rc = 0; uint32_t sid = vs_u32("stream");
    switch (vs_pick("message", 0, kinds - 1)) {
      case 0: { Da p; p.stream_id(sid); uint8_t d[8]; size_t l = (size_t)vs_pick("payload", 0, 2) * 4; vs_bytes(d, l, "payload"); p.payload({d, l}); b = bytes(p); w = 'd'; break; }
      case 1: { Ct p; p.stream_id(sid); p.bandwidth(1.0); if (vs_bool("gain")) { vrtgen::packing::Gain g; g.stage_1(2.0); p.gain(g); } b = bytes(p); w = 'c'; break; }
      case 2: { Cx p; p.stream_id(sid); b = bytes(p); break; }
      case 3: { Ct p; p.stream_id(sid); b = bytes(p); static const size_t CUT[] = {1, 3, 4, 23}; b.resize(CUT[vs_pick("cut", 0, 3)]); break; }
      case 4: { Ct p; p.stream_id(sid); b = bytes(p); b[16] |= 0x00; b[17] |= 0x80; break; }      // a field announced that is not there
      case 5: { Da p; p.stream_id(sid); b = bytes(p); static const int AN[] = {0, 1, 3, 5, 65535}; int a = AN[vs_pick("announced", 0, 4)]; b[2] = (uint8_t)(a >> 8); b[3] = (uint8_t)a; break; }
      default: rc = -1; }
    net::Msg m; m.data = b; m.rc = rc; m.addr = addr(); net::E().in.push_back(m); if ((w == 'd' && ld) || (w == 'c' && lc)) want.push_back({w, b}); } };
  fill((int)vs_pick("messages", 1, n));
  { K_MAKE vrtgen::socket::udp::v4::endpoint_type e((uint16_t)6000); k.data_ctxt_src_endpoint(e);
    if (ld) k.register_da_listener([&](Da &p) { calls.push_back({'d', bytes(p)}); }); if (lc) k.register_ct_listener([&](Ct &p) { calls.push_back({'c', bytes(p)}); });
    k.enable_receive(); if (cycles && vs_bool("twice")) k.enable_receive(); vs::block([] { return net::E().in.empty(); });
    if (cycles) { if (vs_bool("cycle")) { k.disable_receive(); k.disable_receive(); vs_assert(calls.size() == want.size(), "calls"); fill(1); vs::yield(); vs_assert(!net::E().in.empty(), "received-while-disabled"); k.enable_receive(); vs::block([] { return net::E().in.empty(); }); } if (vs_bool("disable")) k.disable_receive(); else vs::yield(); } }
  vs_assert(calls.size() == want.size(), "calls"); for (size_t i = 0; i < calls.size() && i < want.size(); i++) vs_assert(calls[i].what == want[i].what && net::eq(calls[i].b, want[i].b), "call");
  vs_assert(vs::all_done(), "threads-done"); vs_assert(net::open_count() == 0, "sockets-closed"); vs_reach("end");
}
extern "C" void Ct_KIND_receive() { receive(RN, 7, 0, false); }
extern "C" void Ct_KIND_receiving() { receive(1, 2, 2, true); }
extern "C" void Ct_KIND_forward() {
  { K_MAKE vrtgen::socket::udp::v4::endpoint_type e(vs_u16("to")); Bytes to = net::copy(&e.sockaddr(), sizeof e.sockaddr()); k.data_ctxt_dst_endpoint(e); net::E().log.clear(); net::E().notext = true; std::vector<Bytes> b;
    for (int i = 0; i < 2; i++) if (vs_bool("data")) { Da p; p.stream_id(vs_u32("stream")); uint8_t d[4]; vs_bytes(d, 4, "payload"); p.payload({d, 4}); b.push_back(bytes(p)); k.send_da(p); } else { Ct p; p.stream_id(vs_u32("stream")); p.bandwidth(2.0); b.push_back(bytes(p)); k.send_ct(p); }
    size_t n = 0; int fd = -1; for (auto &l : net::E().log) if (l.what == "send") { vs_assert(n < 2 && net::eq(l.data, b[n]) && net::eq(l.addr, to), "forwarded"); n++; if (fd < 0) fd = l.fd; vs_assert(l.fd == fd, "socket"); } vs_assert(n == 2, "forwarded-all"); 
    vs_assert(net::eq(net::copy(&k.data_ctxt_dst_endpoint().sockaddr(), sizeof(sockaddr_in)), to), "destination"); }
  vs_assert(net::open_count() == 0, "sockets-closed"); vs_reach("end");
}
"""

CTL = {
'udp': ("vrtgen::socket::udp::v4::endpoint_type me((uint16_t)5001); ns::Controller k(me);", """
static void commands(int n, int kinds, int preempt) {
  vs::S().preempt = preempt; vs::S().timeouts = 0; net::E().wait = idle; net::E().notext = true;
  { K_MAKE vrtgen::socket::udp::v4::endpoint_type e(vs_u16("to")); Bytes to = net::copy(&e.sockaddr(), sizeof e.sockaddr()); k.controllee_endpoint(e); vs_assert(net::eq(net::copy(&k.controllee_endpoint().sockaddr(), sizeof(sockaddr_in)), to), "endpoint"); net::E().log.clear();
    std::vector<Sent> s; int count = (int)vs_pick("commands", 1, n); for (int i = 0; i < count; i++) s.push_back(one(k, (uint32_t)i + 1, kinds, [&](Sent &r) { for (auto &b : r.rep.all) { net::Msg m; m.rc = 0; m.data = b; m.addr = addr(); net::E().in.push_back(m); } }));
    size_t j = 0; for (auto &l : net::E().log) if (l.what == "send") { vs_assert(j < s.size() && net::eq(l.data, s[j].cmd) && net::eq(l.addr, to), "command"); j++; } vs_assert(j == s.size(), "commands"); vs_assert(net::E().in.empty(), "answers-taken"); }
  vs_assert(vs::all_done(), "threads-done"); vs_assert(net::open_count() == 0, "sockets-closed"); vs_reach("end");
}
"""),
'tcp': ("vrtgen::socket::tcp::v4::endpoint_type me((uint16_t)5001); ns::Controller k(me);", """
static void commands(int n, int kinds, int preempt, bool split = false) {
  vs::S().preempt = preempt; vs::S().timeouts = 0; net::E().wait = idle; net::E().notext = true;
  { K_MAKE vrtgen::socket::tcp::v4::endpoint_type e(vs_u16("to")); Bytes to = net::copy(&e.sockaddr(), sizeof e.sockaddr()); k.controllee_endpoint(e); bool con = false; for (auto &l : net::E().log) if (l.what == "connect") con = net::eq(l.addr, to); vs_assert(con, "connected"); net::E().log.clear(); net::E().partial = split; net::E().shorts = 1;
    std::vector<Sent> s; Bytes all, out; int count = (int)vs_pick("commands", 1, n); for (int i = 0; i < count; i++) s.push_back(one(k, (uint32_t)i + 1, kinds, [&](Sent &r) { Bytes b; for (auto &x : r.rep.all) b.insert(b.end(), x.begin(), x.end()); if (b.empty()) return; size_t c = b.size(); { static const size_t CUT[] = {0, 3, 4, 30, 41}; size_t t = CUT[split ? vs_pick("piece", 0, 4) : 0]; if (t && t < c) c = t; } net::Msg m; m.rc = 0; m.data = net::copy(b.data(), c); net::E().in.push_back(m); if (c < b.size()) { m.data = net::copy(b.data() + c, b.size() - c); net::E().in.push_back(m); } }));
    for (auto &x : s) all.insert(all.end(), x.cmd.begin(), x.cmd.end()); for (auto &l : net::E().log) if (l.what == "send") out.insert(out.end(), l.data.begin(), l.data.end()); vs_assert(net::eq(all, out), "commands"); vs_assert(net::E().in.empty(), "answers-taken"); }
  vs_assert(vs::all_done(), "threads-done"); vs_assert(net::open_count() == 0, "sockets-closed"); vs_reach("end");
}
"""),
'nats': ('ns::Controller k("nats://x");', """
static void commands(int n, int kinds, int preempt) {
  vs::S().preempt = preempt; vs::S().timeouts = 0; 
  { K_MAKE k.controllee_endpoint(std::string("box")); vs_assert(k.controllee_endpoint() == "box", "endpoint"); auto *inbox = nn::E().live.at(0); std::vector<Sent> s; size_t f[4]; int count = (int)vs_pick("commands", 1, n);
    for (int i = 0; i < count; i++) s.push_back(one(k, (uint32_t)i + 1, kinds, [&](Sent &r) { std::vector<Bytes> all = r.rep.all; f[i] = vs::spawn([&, all, i] { vs::block([&, i] { return nn::E().pubs.size() > (size_t)i; }); for (auto &b : all) { vs::yield(); nn::deliver(inbox, nn::make(b)); } }); }));
    for (int i = 0; i < count; i++) vs::join(f[i]);
    vs_assert(nn::E().pubs.size() == s.size(), "commands"); for (size_t j = 0; j < s.size() && j < nn::E().pubs.size(); j++) vs_assert(net::eq(nn::E().pubs[j].data, s[j].cmd) && nn::E().pubs[j].subject == "box" && nn::E().pubs[j].reply == inbox->subject, "command"); }
  vs_assert(nn::E().msgs == 0 && nn::E().subs == 0 && nn::E().conns == 0, "released"); vs_assert(vs::all_done(), "threads-done"); vs_reach("end");
}
""")}


def T06(chk):
    T = chk.tier == 'thorough'
    for k in ('udp', 'tcp', 'nats'):
        d = pkt.generate(chk, yaml=YAML, sub='ctl_' + k, opts=['--cmd-socket', k])
        srcs = sorted(glob.glob(d + '/*.cpp'))
        make, body = CTL[k]
        code = ('#define NATS 1\n' if k == 'nats' else '') + '#define RN %d\n' % (3 if T else 2) + CHEAD + body + CRECV
        code += 'extern "C" void Ct_KIND_commands() { commands(%d, 4, 0); }\nextern "C" void Ct_KIND_order() { commands(1, 1, 2); }\n' % (3 if T else 2)
        if k == 'tcp':
            code += 'extern "C" void Ct_tcp_pieces() { commands(1, 4, 0, true); }\n' + ('extern "C" void Ct_tcp_pieces2() { commands(2, 2, 0, true); }\n' if T else '')
        code = code.replace('K_MAKE', make).replace('KIND', k)
        es = ['commands', 'order'] + (['receive', 'receiving', 'forward'] if k != 'tcp' else ['forward', 'pieces'] + (['pieces2'] if T else []))
        chk.add(TU('Ct_' + k, code, [Entry('Ct_%s_%s' % (k, e), expect_reach=['end']) for e in es], srcs=srcs, incs=[CONC, d]))
