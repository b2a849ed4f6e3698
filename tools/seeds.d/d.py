S('d01-uuid-set-again', 'P06',
  [(I + 'types/uuid.hpp', '        m_value = value_type{ to_binstring(value) };', '        m_value |= value_type{ to_binstring(value) };')],
  'a UUID object that is set a second time', 'the bits of the earlier UUID stay in it',
  cpp="""#include <vrtgen/types.hpp>
int main() { vrtgen::UUID u; u.set("8f1e77a0-5b3c-4d2f-96e8-c0ddfa9b1234"); CHECK(u.get() == "8f1e77a0-5b3c-4d2f-96e8-c0ddfa9b1234"); u.set("12345678-fedc-1234-abcd-123456789abc"); CHECK(u.get() == "12345678-fedc-1234-abcd-123456789abc"); return 0; }
""")
S('d02-reset-keeps-value', 'P07',
  [(P + 'state_event_indicators.hpp', '        sample_loss(false);\n        sample_loss_enable(false);', '        if (sample_loss().value_or(true)) {\n            sample_loss(false);\n        }\n        sample_loss_enable(false);')] if 0 else
  [(P + 'state_event_indicators.hpp', '        over_range_enable(true);\n', '        if (value || !sample_loss_enable()) {\n            over_range_enable(true);\n        }\n')],
  'a clear over-range indicator set while the sample-loss indicator is enabled', 'the over-range indicator stays absent',
  cpp="""#include <vrtgen/packing.hpp>
int main() { vrtgen::packing::StateEventIndicators s; s.over_range(false); CHECK(s.over_range() == false); s.reset_over_range(); s.sample_loss(true); s.over_range(true); CHECK(s.over_range() == true); s.reset_over_range(); CHECK(!s.over_range()); s.over_range(false); CHECK(s.over_range().has_value()); return 0; }
""")
S('d04-association-count', 'P05',
  [(P + 'cif0.hpp', '        source_list_size(m_source_list.size());', '        source_list_size(static_cast<uint8_t>(m_source_list.size()));')],
  'a source list of 256 entries or more', 'the announced number of entries is that modulo 256',
  cpp="""#include <vrtgen/packing.hpp>
int main() { for (std::size_t n : {3, 255, 300}) { vrtgen::packing::ContextAssociationLists c, d; c.source_list(std::vector<uint32_t>(n, 7)); std::vector<uint8_t> w(c.size()); c.pack_into(w.data()); d.unpack_from(w.data()); CHECK(d.source_list().size() == n); } return 0; }
""")
S('d05-address-text-v6', 'T01',
  [(I + 'socket/socket_endpoint.hpp', 'static constexpr auto address_len = INET6_ADDRSTRLEN;', 'static constexpr auto address_len = INET_ADDRSTRLEN;')],
  'an IPv6 address whose text is longer than an IPv4 address', 'its text form is empty',
  cpp="""#include <vrtgen/socket.hpp>
int main() { using E = vrtgen::socket::endpoint::udp::v6; CHECK(E("::1", 5).to_string() == "::1:5"); CHECK(E("2001:db8:1:2:3:4:5:6", 5).to_string() == "2001:db8:1:2:3:4:5:6:5"); return 0; }
""")
S('d06-datagram-buffer', 'T03',
  [(I + 'utility.hpp', '        std::array<uint8_t, 65536> message{ 0 };', '        std::array<uint8_t, 2048> message{ 0 };')],
  'an acknowledgement of more than 2048 bytes over UDP', 'the acknowledgement is cut and refused',
  yaml='''C: !Control
  stream_id: !StreamID
  cam: !ControlAcknowledgeMode {action_mode: execute, req_s: true}
  cif_1: !CIF1
    index_list: !IndexList {entry_size: 32}
CAck: !Ack
  responds_to: C
''', pkts=['C', 'CAck'], libs='-lpthread', cpp="""#include "c.hpp"
#include "c_ack.hpp"
#include <vrtgen/utility.hpp>
#include <thread>
using namespace vrtgen::socket; using A = ns::packets::CAckS;
static in_port_t own(int fd) { sockaddr_in s; socklen_t n = sizeof(s); ::getsockname(fd, (sockaddr*)&s, &n); return ntohs(s.sin_port); }
int main() { for (std::size_t n : {3, 400, 3000}) { udp::v4 s, c; using ep = udp::v4::endpoint_type; CHECK(s.bind(ep("127.0.0.1", 0))); CHECK(c.bind(ep("127.0.0.1", 0))); c.dst(ep("127.0.0.1", own(s.native_handle())));
  std::thread t([&] { char b[100]; ep from; s.receive_from(b, sizeof b, from); A a; a.message_id(9); vrtgen::packing::IndexList<uint32_t> l; l.num_entries(n); l.entries(std::vector<uint32_t>(n, 4)); a.index_list(l); auto d = a.data(); s.send_to(d.data(), d.size(), from); });
  ns::packets::C k; k.message_id(9); std::optional<A> a; a.emplace(); bool ok = true; try { vrtgen::send_packet(c, k, a); } catch (const std::exception& e) { std::puts(e.what()); ok = false; } t.join(); CHECK(ok); CHECK(a->index_list().entries().size() == n); } return 0; }
""")
S('d07-shared-permit', 'Y04',
  [(PYM + 'model/command.py', "    permit_errors : BooleanType = field(default_factory=lambda: BooleanType('permit_errors', packed_tag=PackedTag(25,1,0,0)))", "    permit_errors : BooleanType = field(default_factory=lambda default=BooleanType('permit_errors', packed_tag=PackedTag(25,1,0,0)): default)")],
  'two commands of one file of which only one permits errors', 'the other one permits errors too',
  py=PYH + '''
D = """
A: !Control {stream_id: !StreamID , cam: !ControlAcknowledgeMode {action_mode: execute, permit_errors: %s}}
B: !Control {stream_id: !StreamID , cam: !ControlAcknowledgeMode {action_mode: execute}}
"""
assert not read(D % "false")["B"].cam.permit_errors.enabled
p = read(D % "true"); assert p["A"].cam.permit_errors.enabled and not p["B"].cam.permit_errors.enabled
''')
S('d08-state-ack-third-word', 'G11',
  [(PYM + 'model/command.py', '            if self.is_ack_s:\n                self.cif_2 = ctrl_packet.cif_2', '            if self.is_ack_s and not self.is_ack_v:\n                self.cif_2 = ctrl_packet.cif_2')],
  'a control packet with third-word fields that requests both validation and state acknowledgements', 'the state acknowledgement does not hold the third-word fields',
  yaml='''C: !Control
  stream_id: !StreamID
  cam: !ControlAcknowledgeMode {action_mode: execute, req_v: true, req_s: true}
  cif_0: !CIF0 {bandwidth: required}
  cif_2: !CIF2 {bind: required}
CAck: !Ack
  responds_to: C
''', pkts=['CAck'], cpp='''#include "c_ack.hpp"
template <class T> concept Binds = requires(T t) { t.bind(1u); };
int main() { CHECK(Binds<ns::packets::CAckS>); ns::packets::CAckS p; CHECK(p.size() == 36); return 0; }
''')
S('d10-neutral-velocity', 'P08',
  [(P + 'cif0.hpp', '    int32_t m_velocity_dz{ vrtgen::swap::to_be(static_cast<int32_t>(0x7FFFFFFF)) };', '    int32_t m_velocity_dz{ 0x7FFFFFFF };')],
  'an ephemeris whose vertical velocity is never set', 'the velocity is not marked as unspecified',
  cpp="""#include <vrtgen/packing.hpp>
int main() { vrtgen::packing::Ephemeris e; std::vector<uint8_t> w(e.size()); e.pack_into(w.data()); const uint8_t n[4] = {0x7f, 0xff, 0xff, 0xff}; CHECK(!std::memcmp(w.data() + w.size() - 4, n, 4)); CHECK(!std::memcmp(w.data() + w.size() - 8, n, 4)); return 0; }
""")
S('d11-nats-text-payload', 'T04',
  [(I + 'nats/client.hpp', '            return natsConnection_PublishRequest(m_connection, subject.c_str(), reply.c_str(), data.data(), data.size());', '            return natsConnection_PublishRequest(m_connection, subject.c_str(), reply.c_str(), data.data(), static_cast<uint16_t>(data.size()));')],
  'a request with a payload of 65536 bytes or more', 'only the last part of the size counts: the payload is cut',
  cpp=FAKE.replace('natsStatus natsConnection_PublishRequest(natsConnection*, const char*, const char*, const void*, int) { return NATS_OK; }', 'int sent = 0; natsStatus natsConnection_PublishRequest(natsConnection*, const char*, const char*, const void*, int n) { sent = n; return NATS_OK; }') + """
int main() { vrtgen::nats::client c("u"); for (int n : {5, 70000}) { std::vector<uint8_t> w(n); CHECK(c.publish("s", std::span<const uint8_t>(w), "r") == NATS_OK); CHECK(sent == n); } return 0; }
""", libs='-lpthread')
S('d12-spectrum-data-header', 'Y03',
  [(PYM + 'model/data.py', 'if self.header.spectrum_or_time.enabled and self.header.spectrum_or_time.value == SPECTRUM_OR_TIME.SPECTRUM:', 'elif self.header.spectrum_or_time.enabled and not self.trailer.enabled:')] if 0 else
  [(PYM + 'model/data.py', '        if self.trailer.sample_frame.enabled:\n            self.header.not_v49d0', '        if self.trailer.sample_frame.required:\n            self.header.not_v49d0')],
  'a data packet whose trailer has an optional sample-frame indicator', 'the header does not announce the newer layout',
  py=PYH + '''
for m in ("required", "optional"):
    p = read("P: !Data {stream_id: !StreamID , trailer: !Trailer {sample_frame: %s}}" % m)["P"]
    assert p.header.not_v49d0.enabled and p.header.not_v49d0.value
''')
S('d13-cif7-order', 'G12',
  [('src/vrtgen/parser/model/cif7.py', "    accuracy : CIFEnableType = field(default_factory=lambda: CIFEnableType('accuracy', template_type=True, packed_tag=PackedTag(24,1,0,0)))\n    first_derivative : CIFEnableType = field(default_factory=lambda: CIFEnableType('first_derivative', template_type=True, packed_tag=PackedTag(23,1,0,0)))\n", "    first_derivative : CIFEnableType = field(default_factory=lambda: CIFEnableType('first_derivative', template_type=True, packed_tag=PackedTag(23,1,0,0)))\n    accuracy : CIFEnableType = field(default_factory=lambda: CIFEnableType('accuracy', template_type=True, packed_tag=PackedTag(24,1,0,0)))\n")],
  'a context packet with attributes that carries both the accuracy and the first derivative',
  'the two values are packed and read in exchanged order, the indicator bits are right',
  yaml="""
P: !Context
  stream_id: !StreamID
  cif_0: !CIF0 {bandwidth: required}
  cif_7: !CIF7 {current_value: required, accuracy: required, first_derivative: required}
""", pkts=['P'], cpp='''#include "p.hpp"
int main() {
    ns::packets::P p;
    p.bandwidth(1.0); p.bandwidth_attributes().accuracy(2.0); p.bandwidth_attributes().first_derivative(3.0);
    auto d = p.data();
    std::size_t n = d.size();
    CHECK(n >= 24);
    auto at = [&](std::size_t o) { long long v = 0; for (int i = 0; i < 8; i++) v = v << 8 | (unsigned char)d[o + i]; return v; };
    CHECK(at(n - 24) == 1ll << 20); CHECK(at(n - 16) == 2ll << 20); CHECK(at(n - 8) == 3ll << 20);
}
''')
