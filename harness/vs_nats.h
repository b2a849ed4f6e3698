// The NATS C library as an environment: every status is symbolic, messages are delivered by a fiber of the harness,
// objects live on the checked heap (use after destruction is a memory error) and are counted.
#pragma once
#include "vs.h"
#include "vs_sched.h"
#include <deque>
#include <nats/nats.h>
struct __natsMsg { std::vector<uint8_t> data; std::string reply, subject; bool null_data = false; };
struct __natsConnection { std::string url; };
struct __natsSubscription { natsConnection *c; std::string subject, group; bool sync; natsMsgHandler h; void *ctx; std::deque<natsMsg *> q; int busy = 0; };
namespace nn {
struct Pub { std::string subject, reply; std::vector<uint8_t> data; };
struct Env {
  bool fail = false, notext = false; int conns = 0, subs = 0, msgs = 0, calls = 0; size_t dropped = 0; natsStatus last = NATS_OK; natsConnStatus state = NATS_CONN_STATUS_CONNECTED; std::string connected;
  std::vector<natsSubscription *> live; std::vector<Pub> pubs;
};
inline Env &E() { static Env *e = new Env; return *e; }
inline natsStatus st(const char *what) { E().calls++; natsStatus r = NATS_OK; if (E().fail && vs_bool(what)) r = NATS_TIMEOUT; E().last = r; return r; }
inline natsMsg *make(const std::vector<uint8_t> &d, const std::string &reply = "") { E().msgs++; auto *m = new natsMsg; m->data = d; m->reply = reply; return m; }
inline bool live(natsSubscription *s) { for (auto *x : E().live) if (x == s) return true; return false; }
// the library delivers a message; nothing is delivered on a subscription that was destroyed
inline bool deliver(natsSubscription *s, natsMsg *m) {
  if (!live(s) || !s->c) { E().msgs--; delete m; return false; }
  if (s->sync) { s->q.push_back(m); return true; }
  s->busy++; s->h(s->c, s, m, s->ctx); s->busy--; return true;
}
}
extern "C" {
natsStatus natsConnection_ConnectTo(natsConnection **nc, const char *url) { auto r = nn::st("connect-fails"); if (r != NATS_OK) return r; nn::E().conns++; *nc = new natsConnection; (*nc)->url = url; return r; }
void natsConnection_Destroy(natsConnection *c) { if (!c) return; for (auto *s : nn::E().live) if (s->c == c) { if (s->busy) vs::block([s] { return s->busy == 0; }); s->c = nullptr; } nn::E().conns--; delete c; }   // nothing is delivered any more
natsConnStatus natsConnection_Status(natsConnection *c) { return c ? nn::E().state : NATS_CONN_STATUS_CLOSED; }
natsStatus natsConnection_GetConnectedUrl(natsConnection *c, char *b, size_t n) { if (!c) return NATS_INVALID_ARG; auto r = nn::st("url-fails"); if (r != NATS_OK) return r; if (nn::E().connected.size() + 1 > n) return NATS_INSUFFICIENT_BUFFER; memcpy(b, nn::E().connected.c_str(), nn::E().connected.size() + 1); return r; }
static natsStatus vs_pub(natsConnection *c, const char *s, const char *rep, const void *d, int n) { if (!c || !s || !*s) return NATS_INVALID_ARG; auto r = nn::st("publish-fails"); if (r != NATS_OK) return r; vs_assert(n >= 0, "publish-length"); nn::E().pubs.push_back({s, rep ? rep : "", {(const uint8_t *)d, (const uint8_t *)d + n}}); return r; }
natsStatus natsConnection_Publish(natsConnection *c, const char *s, const void *d, int n) { return vs_pub(c, s, nullptr, d, n); }
natsStatus natsConnection_PublishRequest(natsConnection *c, const char *s, const char *rep, const void *d, int n) { return vs_pub(c, s, rep, d, n); }
static natsStatus vs_sub(natsSubscription **o, natsConnection *c, const char *s, const char *g, bool sync, natsMsgHandler h, void *ctx) {
  if (!c) return NATS_INVALID_ARG; auto r = nn::st("subscribe-fails"); if (r != NATS_OK) return r; nn::E().subs++;
  *o = new natsSubscription{c, s, g ? g : "", sync, h, ctx, {}, 0}; nn::E().live.push_back(*o); return r; }
natsStatus natsConnection_Subscribe(natsSubscription **o, natsConnection *c, const char *s, natsMsgHandler h, void *x) { return vs_sub(o, c, s, nullptr, false, h, x); }
natsStatus natsConnection_SubscribeSync(natsSubscription **o, natsConnection *c, const char *s) { return vs_sub(o, c, s, nullptr, true, nullptr, nullptr); }
natsStatus natsConnection_QueueSubscribe(natsSubscription **o, natsConnection *c, const char *s, const char *g, natsMsgHandler h, void *x) { return vs_sub(o, c, s, g, false, h, x); }
natsStatus natsConnection_QueueSubscribeSync(natsSubscription **o, natsConnection *c, const char *s, const char *g) { return vs_sub(o, c, s, g, true, nullptr, nullptr); }
const char *natsSubscription_GetSubject(natsSubscription *s) { return s ? s->subject.c_str() : nullptr; }
natsStatus natsSubscription_NextMsg(natsMsg **m, natsSubscription *s, int64_t) {
  vs::yield(); if (s->q.empty()) vs::block([s] { return !s->q.empty(); }, true);
  if (s->q.empty()) return NATS_TIMEOUT; *m = s->q.front(); s->q.pop_front(); return NATS_OK; }
void natsSubscription_Destroy(natsSubscription *s) {
  if (!s) return; vs::yield(); for (size_t i = 0; i < nn::E().live.size(); i++) if (nn::E().live[i] == s) { nn::E().live.erase(nn::E().live.begin() + i); break; }
  if (s->busy) vs::block([s] { return s->busy == 0; });
  nn::E().dropped += s->q.size(); for (auto *m : s->q) { nn::E().msgs--; delete m; } nn::E().subs--; delete s; }
natsStatus natsMsg_Create(natsMsg **m, const char *s, const char *rep, const char *d, int n) { auto r = nn::st("create-fails"); if (r != NATS_OK) return r; *m = nn::make({(const uint8_t *)d, (const uint8_t *)d + n}, rep ? rep : ""); (*m)->subject = s; return r; }
void natsMsg_Destroy(natsMsg *m) { if (!m) return; nn::E().msgs--; delete m; }
const char *natsMsg_GetData(const natsMsg *m) { return !m || m->null_data ? nullptr : (const char *)m->data.data(); }
int natsMsg_GetDataLength(const natsMsg *m) { return m ? (int)m->data.size() : 0; }
const char *natsMsg_GetReply(const natsMsg *m) { return m && !m->reply.empty() ? m->reply.c_str() : nullptr; }
}
