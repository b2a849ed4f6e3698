// The operating system's socket calls as an environment: every result, failure and received byte is symbolic, every
// call is recorded and its descriptor checked.  Linked over the C library in the native replay.
#pragma once
#include <sys/socket.h>
#include <sys/time.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <unistd.h>
#include <cerrno>
#include <deque>
#include <functional>
#include "vs.h"
namespace net {
struct Fd { bool open; int domain, type; bool accepted; std::vector<uint8_t> bound, peer; int timeout; bool listening; };
struct Call { std::string what; int fd; std::vector<uint8_t> data, addr; };
struct Msg { std::vector<uint8_t> data, addr; ssize_t rc; };
struct Env {
  std::vector<Fd> fds; std::vector<Call> log, text;    // text: address conversions
  std::deque<Msg> in;                    // what recvfrom / read deliver next; empty: wait() decides
  std::function<bool()> wait;            // called when nothing is queued: true if something was queued, false: the call fails
  bool fail = false;                     // calls may fail
  bool partial = false;                  // writes may be short
  int shorts = 1 << 30;                  // at most this many of them
  int nfail = 0; bool notext = false;
};
inline Env &E() { static Env *e = new Env; return *e; }
inline Fd *fd(int n, const char *what) {
  size_t i = (size_t)(n - 1000); bool ok = n >= 1000 && i < E().fds.size() && E().fds[i].open;
  vs_assert(ok, what); return &E().fds[i];
}
inline bool fails(const char *what) { if (!E().fail) return false; bool f = vs_bool(what); if (f) { errno = EIO; E().nfail++; } return f; }
inline int make(int d, int t, bool acc) { E().fds.push_back({true, d, t, acc, {}, {}, -1, false}); return 1000 + (int)E().fds.size() - 1; }
inline std::vector<uint8_t> copy(const void *p, size_t n) { return {(const uint8_t *)p, (const uint8_t *)p + n}; }
inline bool eq(const std::vector<uint8_t> &a, const std::vector<uint8_t> &b) { if (a.size() != b.size()) return false; uint8_t x = 0; for (size_t i = 0; i < a.size(); i++) x |= a[i] ^ b[i]; return x == 0; }
inline bool eq(const std::vector<uint8_t> &a, const void *p, size_t n) { return eq(a, copy(p, n)); }
inline socklen_t alen(int d) { return d == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6); }
inline void put_addr(const std::vector<uint8_t> &a, sockaddr *sa, socklen_t *len) { if (!sa) return; size_t n = a.size() < *len ? a.size() : *len; memcpy(sa, a.data(), n); *len = (socklen_t)a.size(); }
inline int open_count() { int n = 0; for (auto &f : E().fds) n += f.open; return n; }
}
extern "C" {
int socket(int d, int t, int p) noexcept { if (net::fails("socket-fails")) return -1; int n = net::make(d, t, false); net::E().log.push_back({"socket", n, {}, {}}); return n; }
int close(int n) { auto *f = net::fd(n, "close-of-a-descriptor-not-open"); f->open = false; net::E().log.push_back({"close", n, {}, {}}); return 0; }
int bind(int n, const sockaddr *a, socklen_t l) noexcept { auto *f = net::fd(n, "bind-fd"); vs_assert(l == net::alen(f->domain), "bind-length"); net::E().log.push_back({"bind", n, {}, net::copy(a, l)}); if (net::fails("bind-fails")) return -1; f->bound = net::copy(a, l); return 0; }
int connect(int n, const sockaddr *a, socklen_t l) { auto *f = net::fd(n, "connect-fd"); vs_assert(l == net::alen(f->domain), "connect-length"); net::E().log.push_back({"connect", n, {}, net::copy(a, l)}); if (net::fails("connect-fails")) return -1; f->peer = net::copy(a, l); return 0; }
int listen(int n, int b) noexcept { auto *f = net::fd(n, "listen-fd"); net::E().log.push_back({"listen", n, {}, {}}); if (net::fails("listen-fails")) return -1; f->listening = true; return 0; }
int accept(int n, sockaddr *a, socklen_t *l) {
  auto *f = net::fd(n, "accept-fd"); net::E().log.push_back({"accept", n, {}, {}}); if (net::fails("accept-fails")) return -1;
  vs_assert(*l >= net::alen(f->domain), "accept-length");
  std::vector<uint8_t> p(net::alen(f->domain)); vs_bytes(p.data(), p.size(), "peer"); int d = f->domain, t = f->type; int k = net::make(d, t, true); net::E().fds.back().peer = p; net::put_addr(p, a, l); return k; }
int shutdown(int n, int how) noexcept { net::fd(n, "shutdown-fd"); net::E().log.push_back({"shutdown", n, {(uint8_t)how}, {}}); return 0; }
int setsockopt(int n, int lv, int o, const void *v, socklen_t l) noexcept { auto *f = net::fd(n, "setsockopt-fd"); if (lv == SOL_SOCKET && o == SO_RCVTIMEO) { vs_assert(l == sizeof(timeval), "timeout-length"); timeval tv; memcpy(&tv, v, sizeof tv); vs_assert(tv.tv_usec == 0, "timeout-usec"); f->timeout = (int)tv.tv_sec; } return 0; }
struct vs_pton_t { int rc = -2; uint8_t a[16]; }; inline vs_pton_t vs_pton;
int inet_pton(int af, const char *t, void *d) noexcept {
  net::E().text.push_back({"pton", af, net::copy(t, strlen(t)), {}}); int r = (int)vs_pick("pton", 0, 2) - 1; vs_pton.rc = r; if (r == 1) { vs_bytes(d, af == AF_INET ? 4 : 16, "address"); memcpy(vs_pton.a, d, af == AF_INET ? 4 : 16); } return r; }
const char *inet_ntop(int af, const void *s, char *d, socklen_t n) noexcept {
  size_t need = af == AF_INET ? 16 : 46; net::E().text.push_back({"ntop", af, net::copy(s, af == AF_INET ? 4 : 16), {}}); vs_assert(n >= need, "ntop-room");
  int k = net::E().notext ? 0 : (int)vs_pick("ntop", 0, 3); if (!k) return nullptr; size_t l = k == 1 ? (af == AF_INET ? 7 : 2) : k == 2 ? 9 : need - 1;
  vs_bytes(d, l, "text"); for (size_t i = 0; i < l; i++) vs_assume(d[i] != 0); d[l] = 0; net::E().text.back().addr = net::copy(d, l); return d; }
static inline ssize_t vs_out(const char *what, int n, const void *p, size_t l, const void *a, size_t al) {
  net::fd(n, what); if (net::fails("send-fails")) { net::E().log.push_back({"send-failed", n, {}, {}}); return -1; }
  size_t k = l; if (net::E().partial && l > 1 && net::E().shorts > 0 && vs_bool("short-write")) { net::E().shorts--; k = (size_t)vs_pick("written", 1, 3); k = k * l / 4; if (!k) k = 1; }
  net::E().log.push_back({what, n, net::copy(p, k), net::copy(a, al)}); return (ssize_t)k; }
static inline ssize_t vs_in(const char *what, int n, void *p, size_t l, bool stream, sockaddr *a, socklen_t *al) {
  net::fd(n, what); if (net::E().in.empty() && !(net::E().wait && net::E().wait())) { errno = EAGAIN; return -1; }
  auto &m = net::E().in.front(); ssize_t rc = m.rc;
  if (rc >= 0) { size_t k = m.data.size() < l ? m.data.size() : l; if (k) memcpy(p, m.data.data(), k); rc = (ssize_t)k;
    if (stream && k < m.data.size()) { m.data.erase(m.data.begin(), m.data.begin() + k); net::E().log.push_back({what, n, {}, {}}); return rc; } }
  if (a && rc >= 0) net::put_addr(m.addr, a, al);
  net::E().in.pop_front(); net::E().log.push_back({what, n, {}, {}}); return rc; }
ssize_t sendto(int n, const void *p, size_t l, int, const sockaddr *a, socklen_t al) { return vs_out("send", n, p, l, a, al); }
ssize_t send(int n, const void *p, size_t l, int) { return vs_out("send", n, p, l, "", 0); }
ssize_t write(int n, const void *p, size_t l) { return vs_out("send", n, p, l, "", 0); }
ssize_t recvfrom(int n, void *p, size_t l, int, sockaddr *a, socklen_t *al) { return vs_in("receive", n, p, l, false, a, al); }
ssize_t recv(int n, void *p, size_t l, int) { return vs_in("receive", n, p, l, true, nullptr, nullptr); }
ssize_t read(int n, void *p, size_t l) { return vs_in("receive", n, p, l, true, nullptr, nullptr); }
}
inline int vs_last_pton() { return vs_pton.rc; } inline const uint8_t *vs_last_address() { return vs_pton.a; }
