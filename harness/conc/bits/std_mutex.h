// std::mutex over vs_sched.h: declarations only, so that other standard headers may include this; bodies in <mutex>
#pragma once
#include <cstddef>
#define _GLIBCXX_MUTEX_H 1
namespace std {
struct defer_lock_t { explicit defer_lock_t() = default; }; struct try_to_lock_t { explicit try_to_lock_t() = default; }; struct adopt_lock_t { explicit adopt_lock_t() = default; };
inline constexpr defer_lock_t defer_lock{}; inline constexpr try_to_lock_t try_to_lock{}; inline constexpr adopt_lock_t adopt_lock{};
class mutex {
  bool held = false; size_t by = 0;
public:
  constexpr mutex() noexcept = default; mutex(const mutex &) = delete; mutex &operator=(const mutex &) = delete;
#if defined(VS_CONC_STRICT)
  ~mutex();
#endif
  void lock(); bool try_lock(); void unlock();
  bool __vs_mine() const; void __vs_drop() { held = false; } void __vs_take();
};
template <class M> class lock_guard {
  M &m;
public:
  using mutex_type = M;
  explicit lock_guard(M &x) : m(x) { m.lock(); } lock_guard(M &x, adopt_lock_t) : m(x) {} ~lock_guard() { m.unlock(); }
  lock_guard(const lock_guard &) = delete; lock_guard &operator=(const lock_guard &) = delete;
};
template <class M> lock_guard(M &) -> lock_guard<M>;
}
