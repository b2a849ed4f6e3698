// Harness interface.  Encoded build: the functions are intrinsics of the symbolic executor.
// Replay build (VS_REPLAY): values come from a counterexample file and assertions are executed.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint64_t vs_sym(const char *name, unsigned bits);
void vs_bytes(void *p, size_t n, const char *name);
void vs_assume(bool c);
void vs_assert(bool c, const char *id);
void vs_reach(const char *id);
void vs_trail(const char *id);
uint64_t vs_concretize(uint64_t v);
void vs_check_init(const void *p, size_t n, const char *id);
[[noreturn]] void vs_end();
uint64_t vs_fiber_new(void (*fn)(void *), void *arg); // cooperative thread of control; fn never returns
void vs_fiber_switch(uint64_t fiber);                 // 0 is the entry's own
}
#include <cstring>
#include <vector>
#include <span>
#include <string>
#include <optional>
#include <memory>
static inline bool vs_bool(const char *n) { return vs_sym(n, 1) != 0; }
static inline uint8_t vs_u8(const char *n) { return (uint8_t)vs_sym(n, 8); }
static inline uint16_t vs_u16(const char *n) { return (uint16_t)vs_sym(n, 16); }
static inline uint32_t vs_u32(const char *n) { return (uint32_t)vs_sym(n, 32); }
static inline uint64_t vs_u64(const char *n) { return vs_sym(n, 64); }
static inline int64_t vs_range(const char *n, int64_t lo, int64_t hi) {
  unsigned b = 1; while (b < 63 && ((uint64_t)(hi - lo) >> b)) b++;
  uint64_t v = vs_sym(n, b); vs_assume(v <= (uint64_t)(hi - lo)); return lo + (int64_t)v;
}
static inline int64_t vs_pick(const char *n, int64_t lo, int64_t hi) { return (int64_t)vs_concretize((uint64_t)vs_range(n, lo, hi)); }
static inline double vs_f64(const char *n) { uint64_t u = vs_sym(n, 64); double d; std::memcpy(&d, &u, 8); return d; }
static inline float vs_f32(const char *n) { uint32_t u = (uint32_t)vs_sym(n, 32); float d; std::memcpy(&d, &u, 4); return d; }
// exactly-sized heap buffer filled with symbolic bytes
struct vs_buf {
  std::unique_ptr<uint8_t[]> p; size_t n;
  explicit vs_buf(size_t n_) : p(new uint8_t[n_]), n(n_) {}
  vs_buf(size_t n_, const char *name) : p(new uint8_t[n_]), n(n_) { vs_bytes(p.get(), n, name); }
  uint8_t *data() { return p.get(); }
  const uint8_t *data() const { return p.get(); }
  uint8_t &operator[](size_t i) { return p[i]; }
  std::span<const uint8_t> span() const { return {p.get(), n}; }
};
// big-endian helpers of the reference layout
static inline uint64_t be(const uint8_t *p, unsigned n) { uint64_t v = 0; for (unsigned i = 0; i < n; i++) v = v << 8 | p[i]; return v; }
static inline uint64_t bits(uint64_t word, unsigned hi, unsigned n) { return (word >> (hi - n + 1)) & (n >= 64 ? ~0ull : ((1ull << n) - 1)); }
