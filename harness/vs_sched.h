// Threads as fibers: every scheduling decision is a symbolic value, so one symbolic execution covers every
// interleaving (at the synchronisation points below) within the preemption and timeout budgets.
#pragma once
#include "vs.h"
#include <functional>
#include <chrono>
namespace vs {
struct Th { uint64_t fiber = 0; std::function<void()> body; bool done = false; std::function<bool()> ready; bool timed = false, fired = false; size_t since = 0; };
struct Sched {
  std::vector<std::unique_ptr<Th>> t; size_t cur = 0;
  int preempt = 2, timeouts = 1, idle = 0, fired = 0; size_t seq = 0;      // budgets: forced switches away from a thread that could go on; early timeouts
  Sched() { t.emplace_back(new Th); }
};
inline Sched &S() { static Sched *s = new Sched; return *s; }
inline void reschedule() {
  Sched &s = S(); Th &me = *s.t[s.cur];
  size_t c[16]; bool to[16]; int n = 0; int timeds = 0;
  bool mine = !me.done && (!me.ready || me.ready());
  if (mine && s.preempt <= 0) { return; }
  for (size_t i = 0; i < s.t.size(); i++) { Th &x = *s.t[i]; if (x.done) continue; if (!x.ready || x.ready()) { c[n] = i; to[n++] = false; } else if (x.timed) timeds++; }
  if (n == 0 && timeds) { s.idle++; vs_assert(s.idle < 12, "stuck"); } else if (n) s.idle = 0;
  if (n == 0 || s.timeouts > 0)
    for (size_t i = 0; i < s.t.size(); i++) { Th &x = *s.t[i]; if (!x.done && x.ready && x.timed && !x.ready()) { c[n] = i; to[n++] = true; } }
  // nothing else can go on: whoever has waited longest times out (so nobody is passed over for ever)
  if (n > 1 && to[0]) { bool all = true; for (int i = 0; i < n; i++) all &= to[i]; if (all) { int b = 0; for (int i = 1; i < n; i++) if (s.t[c[i]]->since < s.t[c[b]]->since) b = i; c[0] = c[b]; n = 1; } }
  vs_assert(n > 0, "deadlock");
  size_t k = n == 1 ? 0 : (size_t)vs_pick("sched", 0, n - 1);
  if (to[k] && n > 1) s.timeouts--;
  s.t[c[k]]->fired = to[k]; s.fired += to[k];
  if (c[k] == s.cur) return;
  if (mine) s.preempt--;
  s.cur = c[k]; vs_fiber_switch(s.t[s.cur]->fiber);
}
// a point where another thread may run
inline void yield() { reschedule(); }
// waits for a condition other threads establish; with a time limit it may give up (returns false)
template <class F> inline bool block(F f, bool timed = false) {
  Th &me = *S().t[S().cur]; me.ready = f; me.since = S().seq++; me.timed = timed; me.fired = false;
  reschedule();
  bool fired = me.fired; me.ready = nullptr; me.timed = false; me.fired = false; return !fired;
}
inline void start(void *p) {
  Th &me = *(Th *)p;
  { std::function<void()> b = std::move(me.body); b(); }
  me.done = true; reschedule();
}
inline size_t spawn(std::function<void()> f) {
  Sched &s = S(); auto x = new Th; x->body = std::move(f); s.t.emplace_back(x); size_t id = s.t.size() - 1;
  x->fiber = vs_fiber_new(start, x); return id;
}
inline void join(size_t id) { block([id] { return S().t[id]->done; }); }
inline size_t self() { return S().cur; }
inline bool all_done() { for (size_t i = 1; i < S().t.size(); i++) if (!S().t[i]->done) return false; return true; }
} // namespace vs

// time stands still except when something times out
namespace std::chrono { inline namespace _V2 {
__attribute__((weak)) steady_clock::time_point steady_clock::now() noexcept { return time_point(seconds(1000 + 10 * vs::S().fired)); }
__attribute__((weak)) system_clock::time_point system_clock::now() noexcept { return time_point(seconds(1000000 + 10 * vs::S().fired)); }
} }
