PYH = '''import io, sys
from vrtgen.parser import parse_stream
from vrtgen.parser.loader import get_loader
def read(t): return dict(parse_stream(io.StringIO(t), get_loader()))
def refused(t):
    try: read(t)
    except (Exception, SystemExit): return True
    return False
'''
S('c01-stream-id-sum', 'Y01',
  [('src/vrtgen/parser/loader.py', '            if pos > 32:', '            if pos - val.bits > 32 or val.bits > 32:')],
  'a user-defined stream identifier of at least two constituents of which the last one crosses the 32-bit boundary',
  'constituents beyond the 32-bit word are accepted (their top ends outside the word)',
  py=PYH + '''
D = """
P: !Data
  stream_id: !StreamID
    a: !IntegerType {bits: %d}
    b: !IntegerType {bits: %d}
"""
assert not refused(D % (16, 16)) and not refused(D % (1, 31))
assert refused(D % (20, 13)) and refused(D % (31, 2)) and refused(D % (33, 1))
''')
S('c03-not-v49d0-extension', 'Y03',
  [('src/vrtgen/parser/model/context.py', 'if self.cif_1.enabled or self.cif_2.enabled or self.cif_7.enabled:', 'if self.header.packet_type.value == PacketType.CONTEXT and (self.cif_1.enabled or self.cif_2.enabled or self.cif_7.enabled):')],
  'an extension context packet with a second indicator word', 'the header of the packet does not announce the newer layout',
  py=PYH + '''
p = read("P: !ExtensionContext {stream_id: !StreamID , cif_2: !CIF2 {bind: required}}")["P"]
assert p.header.not_v49d0.enabled and p.header.not_v49d0.value
p = read("P: !ExtensionContext {stream_id: !StreamID , cif_1: !CIF1 {range: required}}")["P"]
assert p.header.not_v49d0.enabled and p.header.not_v49d0.value
''')
S('c04-ack-controller-only', 'Y03',
  [('src/vrtgen/parser/model/command.py', '        self.controller_id = ctrl_packet.controller_id\n', '        if self.controllee_id.enabled:\n            self.controller_id = ctrl_packet.controller_id\n')],
  'a control packet with a controller identifier but no controllee identifier', 'its acknowledgement is read at the wrong place: the identifier is missing from it',
  py=PYH + '''
D = """
C: !Control {stream_id: !StreamID , cam: !ControlAcknowledgeMode {action_mode: execute, req_v: true}, %s}
CAck: !Ack {responds_to: C}
"""
a = read(D % "controller_id: word")["CAck"]; assert a.controller_id.enabled and not a.controllee_id.enabled
a = read(D % "controllee_id: uuid")["CAck"]; assert a.controllee_id.enabled and not a.controller_id.enabled
a = read(D % "controllee_id: uuid, controller_id: word")["CAck"]; assert a.controllee_id.enabled and a.controller_id.enabled
''')
S('c05-ack-weif2-execution-only', 'G10',
  [('src/vrtgen/parser/model/command.py', '''                self.cif_2 = ctrl_packet.cif_2
            if self.is_ack_v or self.is_ack_x:
''', '''                self.cif_2 = ctrl_packet.cif_2
            if self.is_ack_x:
''')],
  'a control packet with third-word fields that requests validation but no execution acknowledgements',
  'warnings and errors about the fields of the third indicator word have no accessors in the acknowledgement',
  yaml='''C: !Control
  stream_id: !StreamID
  cam: !ControlAcknowledgeMode {action_mode: execute, req_v: true, req_w: true, req_er: true}
  cif_0: !CIF0 {bandwidth: required}
  cif_2: !CIF2 {bind: required}
CAck: !Ack
  responds_to: C
''', pkts=['CAck'], cpp='''#include "c_ack.hpp"
int main() { ns::packets::CAckVX p; vrtgen::packing::WarningErrorFields w; w.timestamp_problem(true); p.bind_warnings(w); CHECK(p.bind_warnings().value().timestamp_problem()); return 0; }
''')
S('c06-udp-peer-length', 'T02',
  [(I + 'socket/udp.hpp', '        return recvfrom(this->m_socket, data, len, 0, (sockaddr*)&endpoint.sockaddr(), &endpoint.socklen());',
    '        auto socklen = endpoint.socklen();\n        auto res = recvfrom(this->m_socket, data, len, 0, (sockaddr*)&endpoint.sockaddr(), &socklen);\n        if (res > 0) {\n            endpoint.socklen() = socklen;\n        } else {\n            endpoint = endpoint_type{};\n        }\n        return res;')],
  'an empty datagram', 'the sender of an empty datagram is forgotten, so the answer goes nowhere',
  cpp='''#include <vrtgen/socket.hpp>
using namespace vrtgen::socket;
int main() { udp::v4 a, b; endpoint::udp::v4 any; any.address("127.0.0.1"); any.port(0); CHECK(a.bind(any)); CHECK(b.bind(any));
  sockaddr_in s; socklen_t n = sizeof(s); ::getsockname(a.native_handle(), (sockaddr*)&s, &n); endpoint::udp::v4 to("127.0.0.1", ntohs(s.sin_port));
  sockaddr_in r; n = sizeof(r); ::getsockname(b.native_handle(), (sockaddr*)&r, &n);
  char buf[8]; endpoint::udp::v4 from; CHECK(b.send_to("", 0, to) == 0); CHECK(a.receive_from(buf, 8, from) == 0); CHECK(from.port() == ntohs(r.sin_port));
  CHECK(b.send_to("x", 1, to) == 1); CHECK(a.receive_from(buf, 8, from) == 1); CHECK(from.port() == ntohs(r.sin_port)); return 0; }
''')
S('c07-failed-connect-dst', 'T02',
  [(I + 'socket/socket_base.hpp', '        auto res = ::connect(m_socket, (const sockaddr*)&endpoint.sockaddr(), endpoint.socklen());', '        m_dst = endpoint;\n        auto res = ::connect(m_socket, (const sockaddr*)&m_dst.sockaddr(), m_dst.socklen());')],
  'a connection attempt that fails after an earlier one succeeded', 'the socket reports a destination it is not connected to',
  cpp='''#include <vrtgen/socket.hpp>
using namespace vrtgen::socket;
int main() { using ep = tcp::v4::endpoint_type; tcp::v4 l; CHECK(l.bind(ep("127.0.0.1", 0))); CHECK(l.listen());
  sockaddr_in s; socklen_t n = sizeof(s); ::getsockname(l.native_handle(), (sockaddr*)&s, &n); in_port_t port = ntohs(s.sin_port);
  tcp::v4 c; CHECK(c.connect(ep("127.0.0.1", port))); CHECK(c.dst().port() == port); CHECK(!c.connect(ep("127.0.0.1", 1))); CHECK(c.dst().port() == port); return 0; }
''')
S('c08-second-accept', 'T02',
  [(I + 'socket/tcp.hpp', '        this->m_dst = endpoint;', '        if (this->m_dst.port() == 0) {\n            this->m_dst = endpoint;\n        }')],
  'a listening socket that accepts a second connection', 'the destination stays that of the first peer', cpp='''#include <vrtgen/socket.hpp>
using namespace vrtgen::socket;
static in_port_t own(int fd) { sockaddr_in s; socklen_t n = sizeof(s); ::getsockname(fd, (sockaddr*)&s, &n); return ntohs(s.sin_port); }
int main() { using ep = tcp::v4::endpoint_type; tcp::v4 l; CHECK(l.bind(ep("127.0.0.1", 0))); CHECK(l.listen()); ep to("127.0.0.1", own(l.native_handle()));
  tcp::v4 a, b; CHECK(a.connect(to)); CHECK(l.accept()); CHECK(l.dst().port() == own(a.native_handle())); CHECK(b.connect(to)); CHECK(l.accept()); CHECK(l.dst().port() == own(b.native_handle())); return 0; }
''')

FAKE = """#include <nats/nats.h>
#include <vrtgen/nats/client.hpp>
#include <atomic>
#include <map>
#include <mutex>
#include <set>
struct M { std::string d, r; }; struct Sub { natsMsgHandler cb; void* ctx; std::string s; };
static std::set<Sub*> subs; static std::mutex mx; static std::vector<std::string> pending; static Sub* newest = nullptr; static bool fail = false;
extern "C" {
natsStatus natsConnection_ConnectTo(natsConnection** c, const char*) { *c = (natsConnection*)new int(1); return NATS_OK; }
void natsConnection_Destroy(natsConnection* c) { delete (int*)c; }
natsConnStatus natsConnection_Status(natsConnection*) { return NATS_CONN_STATUS_CONNECTED; }
natsStatus natsConnection_GetConnectedUrl(natsConnection*, char*, size_t) { return NATS_ERR; }
natsStatus natsConnection_Publish(natsConnection*, const char*, const void*, int) { return NATS_OK; }
natsStatus natsConnection_PublishRequest(natsConnection*, const char*, const char*, const void*, int) { return NATS_OK; }
static natsStatus mk(natsSubscription** o, const char* s, natsMsgHandler cb, void* ctx) { if (fail) return NATS_ERR; std::lock_guard<std::mutex> l(mx); auto p = new Sub{cb, ctx, s}; subs.insert(p); newest = p; *o = (natsSubscription*)p; return NATS_OK; }
natsStatus natsConnection_Subscribe(natsSubscription** o, natsConnection*, const char* s, natsMsgHandler cb, void* ctx) { return mk(o, s, cb, ctx); }
natsStatus natsConnection_QueueSubscribe(natsSubscription** o, natsConnection*, const char* s, const char*, natsMsgHandler cb, void* ctx) { return mk(o, s, cb, ctx); }
natsStatus natsConnection_SubscribeSync(natsSubscription** o, natsConnection*, const char* s) { return mk(o, s, nullptr, nullptr); }
natsStatus natsConnection_QueueSubscribeSync(natsSubscription** o, natsConnection*, const char* s, const char*) { return mk(o, s, nullptr, nullptr); }
natsStatus natsSubscription_NextMsg(natsMsg** m, natsSubscription*, int64_t) { { std::lock_guard<std::mutex> l(mx); if (!pending.empty()) { *m = (natsMsg*)new M{pending.front(), ""}; pending.erase(pending.begin()); return NATS_OK; } }
  std::this_thread::sleep_for(std::chrono::milliseconds(5)); return NATS_TIMEOUT; }
const char* natsSubscription_GetSubject(natsSubscription* s) { return ((Sub*)s)->s.c_str(); }
natsStatus natsSubscription_Unsubscribe(natsSubscription*) { return NATS_OK; }
void natsSubscription_Destroy(natsSubscription* s) { std::lock_guard<std::mutex> l(mx); subs.erase((Sub*)s); delete (Sub*)s; }
natsStatus natsMsg_Create(natsMsg** m, const char*, const char*, const char* d, int n) { *m = (natsMsg*)new M{std::string(d, n), ""}; return NATS_OK; }
const char* natsMsg_GetSubject(const natsMsg*) { return ""; }
const char* natsMsg_GetReply(const natsMsg* m) { return ((M*)m)->r.c_str(); }
const char* natsMsg_GetData(const natsMsg* m) { return ((M*)m)->d.data(); }
int natsMsg_GetDataLength(const natsMsg* m) { return (int)((M*)m)->d.size(); }
void natsMsg_Destroy(natsMsg* m) { delete (M*)m; }
}
"""
S('c09-nats-one-wakeup', 'T04',
  [(I + 'nats/client.hpp', """            m_msg_queue.push(std::move(data));
        }
        m_msg_cv.notify_one();""", """            m_msg_queue.push(std::move(data));
            if (m_msg_queue.size() > 1) {
                return;
            }
        }
        m_msg_cv.notify_one();""")],
  'two threads waiting for messages, and a second message that arrives before the first has been taken',
  'the second thread is never woken although a message is waiting',
  cpp=FAKE + """
int main() { using namespace std::chrono; for (int i = 0; i < 100; ++i) { vrtgen::nats::client c("u"); c.subscribe("s"); std::atomic<int> got{0}; std::atomic<bool> bad{false};
  auto f = [&] { auto t = steady_clock::now(); auto m = c.next_msg(milliseconds(1500)); if (m) ++got; if (steady_clock::now() - t > milliseconds(1200)) bad = true; };
  std::thread a(f), b(f); std::this_thread::sleep_for(milliseconds(10)); for (int k = 0; k < 2; ++k) newest->cb((natsConnection*)nullptr, nullptr, (natsMsg*)new M{"x", ""}, newest->ctx); a.join(); b.join();
  if (got != 2 || bad) { std::puts("lost wake-up"); return 1; } } return 0; }
""", libs='-lpthread')
S('c10-nats-second-inbox', 'T04',
  [(I + 'nats/client.hpp', '    auto new_inbox() -> natsStatus\n    {\n        if (m_reply_sub != nullptr) {', '    auto new_inbox() -> natsStatus\n    {\n        if (m_reply_sub != nullptr && !m_is_sync) {')],
  'a second inbox on a client that reads its subject synchronously', 'the first inbox is never released and keeps delivering',
  cpp=FAKE + """
int main() { { vrtgen::nats::client c("u"); c.new_inbox(); c.new_inbox(); CHECK(subs.size() == 1); c.subscribe("s", true); CHECK(c.new_inbox() == NATS_OK); CHECK(subs.size() == 2); } CHECK(subs.empty()); return 0; }
""", libs='-lpthread')
S('c11-nats-queued-then-stopped', 'T04',
  [(I + 'nats/client.hpp', '        if (!m_msg_queue.empty()) {\n            auto retval = std::move(m_msg_queue.front());', '        if (!m_msg_queue.empty() && (!m_is_sync || m_running)) {\n            auto retval = std::move(m_msg_queue.front());')],
  'messages received before a failing or stopped synchronous subscription, fetched after it', 'messages that were received are never handed out',
  cpp=FAKE + """
int main() { vrtgen::nats::client c("u"); c.subscribe("s", true); { std::lock_guard<std::mutex> l(mx); pending = {"a", "b"}; } CHECK(c.next_msg(std::chrono::milliseconds(2000)));
  std::this_thread::sleep_for(std::chrono::milliseconds(100)); fail = true; CHECK(c.subscribe("t", true) != NATS_OK); CHECK(c.next_msg(std::chrono::milliseconds(10))); return 0; }
""", libs='-lpthread')
S('c12-information-class-shared-packet', 'G09',
  [('src/vrtgen/backend/cpp/generator.py', '        self.packets.append(copy.deepcopy(model))', '        self.packets.append(copy.copy(model))'),
   ('src/vrtgen/backend/cpp/generator.py', '                if existing_packet.config.class_id.information_code.value == packet.class_id.information_code.value:', '                if existing_packet.config is packet and existing_packet.supports_multiple_information_codes:')],
  'a packet that belongs to two information classes with different codes', 'a fresh packet carries the code of the last class',
  yaml="""P: !Context
  stream_id: !StreamID
  class_id: !ClassID {oui: FF-EE-DD, packet_code: 7, information_code: 1}
  cif_0: !CIF0 {bandwidth: required}
A: !InformationClass
  code: 5
  packet_classes: [P]
B: !InformationClass
  code: 9
  packet_classes: [P]
""", pkts=['P'], cpp="""#include "p.hpp"
int main() { ns::packets::P p; CHECK(p.class_id().information_code() == 5); return 0; }
""")
S('c13-int-width', 'G05',
  [('src/vrtgen/backend/cpp/type_helpers.py', '    if field.bits > 32:\n', '    if field.bits > 33:\n')],
  'a user-defined integer subfield of exactly 33 bits', 'its top bit is lost by the accessor',
  yaml="""P: !Context
  stream_id: !StreamID
  cif_0: !CIF0 {bandwidth: required}
  cif_1: !CIF1
    discrete_io_64: !DiscreteIO64 {mode: required, a: 33, b: 31}
""", pkts=['P'], cpp="""#include "p.hpp"
int main() { ns::packets::P p; p.discrete_io_64().a(0x1ffffffffull); CHECK(p.discrete_io_64().a() == 0x1ffffffffull); CHECK(p.discrete_io_64().b() == 0); return 0; }
""")
S('c15-case-of-literals', 'Y02',
  [('src/vrtgen/parser/value.py', "        return _TSF_VALUES[value.casefold()]", "        return _TSF_VALUES[value.lower() if value[:1].isupper() else value]")],
  'a fractional time stamp word that begins with a lower-case letter and contains an upper-case one', 'the definition is refused although case is ignored',
  py=PYH + """
def d(t): return "P: !Data {timestamp: !Timestamp {fractional: %s}}" % t
for t in ("picoseconds", "PicoSeconds", "PICOSECONDS", "free-Running", "Free-running", "sAMPLES"): assert not refused(d(t)), t
""")
