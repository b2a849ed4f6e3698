"""The NATS client (T04): every interleaving of the library's threads and the callers, every status."""
from .driver import TU, Entry, VERIF

CONC = VERIF + '/harness/conc'

CODE = '''#include "vs_nats.h"
#include <vrtgen/nats/client.hpp>
using vrtgen::nats::client; using vrtgen::nats::message; using Bytes = std::vector<uint8_t>; using namespace std::chrono_literals;
static Bytes content(const char *n, int max) { Bytes b((size_t)vs_pick("length", 0, max)); vs_bytes(b.data(), b.size(), n); return b; }
static bool eq(std::span<const uint8_t> a, const Bytes &b) { if (a.size() != b.size()) return false; uint8_t x = 0; for (size_t i = 0; i < b.size(); i++) x |= a[i] ^ b[i]; return x == 0; }
static void clean() { vs_assert(nn::E().subs == 0, "subscription-leak"); vs_assert(nn::E().conns == 0, "connection-leak"); vs_assert(nn::E().msgs == 0, "message-leak"); vs_assert(vs::all_done(), "thread-leak"); vs_reach("end"); }
// what is delivered arrives, in order, once
static void receive(bool sync, int k, int preempt, int timeouts) {
  vs::S().preempt = preempt; vs::S().timeouts = timeouts;
  {
    client c("nats://x"); vs_assert(c.subscribe("cmd", sync) == NATS_OK, "subscribed");
    std::vector<Bytes> in((size_t)k), want; for (auto &b : in) { b = content("in", 1); if (!b.empty()) want.push_back(b); }
    auto *s = nn::E().live.at(0); vs_assert(s->sync == sync, "kind-of-subscription");
    size_t d = vs::spawn([&] { for (auto &b : in) { vs::yield(); nn::deliver(s, nn::make(b)); } });
    size_t got = 0; int none = 0;
    while (got < want.size()) {
      int how = (int)vs_pick("how", 0, 2); int f0 = vs::S().fired;
      auto m = how == 0 ? c.next_msg() : how == 1 ? c.next_msg(100ms) : c.next_msg(0ms);
      if (m == nullptr) { vs_assert(how != 0, "nothing-without-time-limit"); vs_assert(vs::S().fired > f0, "nothing-before-time"); if (++none > 2) vs_end(); continue; }
      vs_assert(eq(m->data(), want[got]), "message"); got++;
    }
    if (vs_bool("once-more")) { auto m = c.next_msg(10ms); vs_assert(m == nullptr, "message-from-nowhere"); }
    vs::join(d);
  }
  clean();
}
extern "C" void Na_async() { receive(false, ASYNC_MSGS, 3, 1); }
extern "C" void Na_sync() { receive(true, SYNC_MSGS, 2, 1); }
// replies and messages wait for different callers
extern "C" void Na_inbox() {
  vs::S().preempt = INBOX_PREEMPT; vs::S().timeouts = 1;
  {
    client c("nats://x"); vs_assert(c.inbox().empty() && c.subject().empty(), "nothing-yet"); bool first = vs_bool("inbox-first");
    if (!first) vs_assert(c.subscribe("cmd") == NATS_OK, "subscribed");
    vs_assert(c.new_inbox() == NATS_OK, "inbox");
    if (first) vs_assert(c.subscribe("cmd") == NATS_OK, "subscribed");
    auto *r = nn::E().live.at(first ? 0 : 1), *s = nn::E().live.at(first ? 1 : 0); vs_assert(c.inbox() == r->subject && c.subject() == s->subject && s->subject == "cmd", "subjects");
    Bytes a = {vs_u8("reply")}, b = {vs_u8("message")}; bool timed = vs_bool("timed");
    size_t d = vs::spawn([&] { bool k = vs_bool("reply-first"); for (int i = 0; i < 2; i++) { vs::yield(); if (k == (i == 0)) nn::deliver(r, nn::make(a)); else nn::deliver(s, nn::make(b)); } });
    size_t w = vs::spawn([&] { auto m = c.next_msg(); vs_assert(m != nullptr && eq(m->data(), b), "message"); });
    int f0 = vs::S().fired; auto m = timed ? c.next_inbox_msg(50ms) : c.next_inbox_msg();
    if (m == nullptr) { vs_assert(timed && vs::S().fired > f0, "nothing-before-time"); m = c.next_inbox_msg(); }
    vs_assert(m != nullptr && eq(m->data(), a), "reply");
    vs::join(w); vs::join(d);
  }
  clean();
}
// two callers share the messages
extern "C" void Na_shared() {
  vs::S().preempt = INBOX_PREEMPT; vs::S().timeouts = 0; bool inbox = vs_bool("inbox");
  {
    client c("nats://x"); vs_assert((inbox ? c.new_inbox() : c.subscribe("cmd")) == NATS_OK, "subscribed"); auto *s = nn::E().live.at(0);
    Bytes a = {1}, b = {2}; int seen = 0;
    auto take = [&] { auto m = inbox ? c.next_inbox_msg() : c.next_msg(); vs_assert(m != nullptr && m->data().size() == 1, "message"); seen += m->data()[0]; };
    size_t d = vs::spawn([&] { vs::yield(); nn::deliver(s, nn::make(a)); vs::yield(); nn::deliver(s, nn::make(b)); });
    size_t w = vs::spawn(take); take(); vs::join(w); vs::join(d); vs_assert(seen == 3, "each-once");
  }
  clean();
}
// what was handed to the client before it subscribed anew, successfully or not, is still handed out
static void again(bool box) {
  vs::S().preempt = 1; vs::S().timeouts = 0;
  {
    client c("nats://x"); bool sync = !box && vs_bool("sync"); vs_assert((box ? c.new_inbox() : c.subscribe("cmd", sync)) == NATS_OK, "subscribed");
    std::vector<Bytes> in = {{vs_u8("first")}, {vs_u8("second")}, {vs_u8("third")}}; auto *s = nn::E().live.at(0);
    for (int i = 0; i < 2; i++) { vs::yield(); nn::deliver(s, nn::make(in[i])); } vs::yield();
    size_t got = 0; auto take = [&](int ms) { return ms < 0 ? (box ? c.next_inbox_msg() : c.next_msg()) : box ? c.next_inbox_msg(std::chrono::milliseconds(ms)) : c.next_msg(std::chrono::milliseconds(ms)); };
    if (vs_bool("take-one")) { auto m = take(-1); vs_assert(m != nullptr && eq(m->data(), in[0]), "message-before"); got++; }
    bool queue = !box && vs_bool("queue"), again = box ? false : vs_bool("sync-again"); nn::E().fail = true;
    auto r = box ? c.new_inbox() : queue ? c.queue_subscribe("other", "g", again) : c.subscribe("other", again); nn::E().fail = false;
    bool ok = r == NATS_OK; size_t have = 2 - nn::E().dropped; vs_assert(sync || have == 2, "delivered");
    while (got < have) { auto m = take(vs_bool("limit") ? 10 : -1); if (m == nullptr) { vs_assert(false, "lost-on-subscribing-again"); vs_end(); } vs_assert(eq(m->data(), in[got]), "message-after"); got++; }
    if (ok) { nn::deliver(nn::E().live.back(), nn::make(in[2])); auto m = take(-1); vs_assert(m != nullptr && eq(m->data(), in[2]), "message-of-new-subscription"); }
    else { auto m = take(0); vs_assert(m == nullptr, "message-from-nowhere"); }
  }
  clean();
}
extern "C" void Na_again() { again(false); }
extern "C" void Na_rebox() { again(true); }
// any history of calls, each of which may fail
extern "C" void Na_life() {
  vs::S().preempt = 0; vs::S().timeouts = 0; nn::E().fail = true;
  {
    std::optional<client> c; bool conn = false; std::string sub, box; bool sync = false;
    if (vs_bool("connected-at-once")) { c.emplace("nats://a"); conn = nn::E().last == NATS_OK; } else c.emplace();
    for (int i = 0; i < LIFE; i++) {
      int calls = nn::E().calls;
      switch (vs_pick("op", 0, 3)) {
        case 0: { auto r = c->connect("nats://b"); conn = r == NATS_OK; vs_assert(r == nn::E().last, "status"); sub.clear(); box.clear(); break; }
        case 1: { bool y = vs_bool("sync"); auto r = c->subscribe("one", y); sub.clear(); if (!conn) vs_assert(r != NATS_OK, "not-connected"); else { vs_assert(r == nn::E().last, "status"); if (r == NATS_OK) { sub = "one"; sync = y; vs_assert(nn::E().live.back()->sync == y && nn::E().live.back()->group.empty(), "kind-of-subscription"); } } break; }
        case 2: { bool y = vs_bool("sync"); auto r = c->queue_subscribe("two", "g", y); sub.clear(); if (!conn) vs_assert(r != NATS_OK, "not-connected"); else { vs_assert(r == nn::E().last, "status"); if (r == NATS_OK) { sub = "two"; sync = y; vs_assert(nn::E().live.back()->sync == y && nn::E().live.back()->group == "g", "kind-of-subscription"); } } break; }
        default: { auto r = c->new_inbox(); std::string old = box; box.clear(); if (!conn) vs_assert(r != NATS_OK, "not-connected"); else { vs_assert(r == nn::E().last, "status"); if (r == NATS_OK) { box = nn::E().live.back()->subject; vs_assert(!nn::E().live.back()->sync && box != old && box.size() > 16 && box.find_first_of(" .*>") == std::string::npos, "inbox-name"); } } }
      }
      vs_assert(nn::E().conns == (conn ? 1 : 0), "connections"); vs_assert(nn::E().subs == !sub.empty() + !box.empty(), "subscriptions");
      vs_assert(c->subject() == sub, "subject"); vs_assert(c->inbox() == box, "inbox"); vs_assert(c->is_connected() == conn, "is-connected");
    }
    // whatever is subscribed now delivers to the right queue
    auto subs = nn::E().live; Bytes b = {7};
    for (auto *s : subs) { nn::deliver(s, nn::make(b)); auto m = s->subject == box ? c->next_inbox_msg() : c->next_msg(); vs_assert(m != nullptr && eq(m->data(), b), "delivered"); }
    (void)sync;
  }
  clean();
}
extern "C" void Na_calls() {
  {
    client c("nats://x"); nn::E().fail = true;
    vs_assert(c.subscribe("") == NATS_INVALID_SUBJECT && c.queue_subscribe("", "g") == NATS_INVALID_SUBJECT && c.queue_subscribe("s", "") == NATS_INVALID_QUEUE_NAME, "empty-names"); vs_assert(nn::E().subs == 0, "nothing-subscribed");
    Bytes d = content("data", 3); bool rep = vs_bool("with-reply"); auto r = rep ? c.publish("a.b", d, "back") : c.publish("a.b", d);
    vs_assert(r == nn::E().last, "publish-status"); vs_assert(nn::E().pubs.size() == (r == NATS_OK), "published-once");
    if (r == NATS_OK) { auto &p = nn::E().pubs[0]; vs_assert(p.subject == "a.b" && p.reply == (rep ? "back" : "") && eq(p.data, d), "published"); }
    static const int LEN[] = {0, 9, 255}; nn::E().connected = std::string((size_t)LEN[vs_pick("url-length", 0, 2)], 'u'); auto u = c.url(); vs_assert(u == (nn::E().last == NATS_OK ? nn::E().connected : std::string()), "url");
    nn::E().state = (natsConnStatus)vs_range("state", 0, 5); vs_assert(c.is_connected() == (nn::E().state == NATS_CONN_STATUS_CONNECTED), "is-connected");
  }
  clean();
}
// contents far larger than usual: nothing is cut
extern "C" void Na_large() {
  {
    client c("nats://x"); static const int N[] = {32768, 65535, 65536, 66001}; Bytes d((size_t)N[vs_pick("size", 0, 3)]); size_t at[] = {0, d.size() / 2, d.size() - 1}; for (auto i : at) d[i] = (uint8_t)vs_u8("byte");
    auto whole = [&](const auto &g) { if (g.size() != d.size()) return false; bool ok = true; for (auto i : at) ok &= (uint8_t)g[i] == d[i]; return ok; };
    bool rep = vs_bool("with-reply"); auto r = rep ? c.publish("a.b", d, "back") : c.publish("a.b", d); vs_assert(r == NATS_OK && nn::E().pubs.size() == 1, "published-once");
    auto &p = nn::E().pubs[0]; vs_assert(p.subject == "a.b" && p.reply == (rep ? "back" : "") && whole(p.data), "published-whole");
    message m(nn::make(d, "back")); vs_assert(whole(m.data()), "message-whole"); message n("subj", std::span<const char>((const char *)d.data(), d.size())); vs_assert(whole(n.data()), "created-whole");
    vs_assert(c.subscribe("one", vs_bool("sync")) == NATS_OK, "subscribed"); auto *sub = nn::E().live.back(); nn::deliver(sub, nn::make(d)); auto q = c.next_msg(); vs_assert(q != nullptr, "delivered"); if (q != nullptr) vs_assert(whole(q->data()), "delivered-whole");
  }
  clean();
}
extern "C" void Na_message() {
  {
    Bytes d = content("data", 3); std::string rep = vs_bool("with-reply") ? "back" : "";
    auto *raw = nn::make(d, rep); raw->null_data = vs_bool("no-data"); message m(raw); vs_assert(m.get() == raw, "message-get"); vs_assert(raw->null_data ? m.data().empty() : eq(m.data(), d), "message-data"); vs_assert(m.reply_subject() == rep, "message-reply");
    nn::E().fail = true; message n("subj", std::span<const char>((const char *)d.data(), d.size()));
    if (nn::E().last == NATS_OK) { vs_assert(n.get() != nullptr && n.get()->subject == "subj" && n.get()->reply.empty() && eq(n.data(), d), "created"); } else vs_assert(n.get() == nullptr && n.data().empty() && n.reply_subject().empty(), "not-created");
    std::unique_ptr<message> none = std::make_unique<message>((natsMsg *)nullptr); vs_assert(none->data().empty() && none->reply_subject().empty(), "no-message");
  }
  clean();
}
'''


def T04(chk):
    T = chk.tier == 'thorough'
    defs = dict(ASYNC_MSGS=3 if T else 2, SYNC_MSGS=2 if T else 2, INBOX_PREEMPT=3 if T else 2, LIFE=4 if T else 3)
    code = ''.join('#define %s %d\n' % kv for kv in defs.items()) + CODE
    for n in ('async', 'sync', 'inbox', 'shared', 'again', 'rebox', 'life', 'calls', 'large', 'message'):
        chk.add(TU('Na_' + n, code, [Entry('Na_' + n, expect_reach=['end'])], incs=[CONC]))
    chk.bounds = '%d messages (synchronous: %d), up to three threads, 3/2/%d forced switches, one early timeout; histories of %d calls, each failing or not; names and URLs of up to 255 characters; single messages of up to 66001 bytes' % (defs['ASYNC_MSGS'], defs['SYNC_MSGS'], defs['INBOX_PREEMPT'], defs['LIFE'])
