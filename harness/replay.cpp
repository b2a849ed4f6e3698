// Native side of the harness interface: runs one entry with the values of a counterexample.
// exit 0: every assertion held; 1: an assertion failed or an exception escaped; sanitizers end
// the process themselves.
#include "vs.h"
#include <cstdio>
#include <cstdlib>
#include <map>
#include <exception>
#include <dlfcn.h>
#include <typeinfo>
#include <ucontext.h>
#include <pthread.h>
#include <cxxabi.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VS_ASAN 1
#include <sanitizer/common_interface_defs.h>
#endif
#endif
static std::map<std::string, uint64_t> g_vals; static std::map<std::string, unsigned> g_cnt;
static uint64_t look(const std::string &n) { auto it = g_vals.find(n); return it == g_vals.end() ? 0 : it->second; }
// fibers: one ucontext each; the exception state is switched with them
struct Fib { ucontext_t uc; void (*fn)(void *); void *arg; void *eh[2] = {}; void *fake = nullptr; char *stk = nullptr; size_t n = 0; };
static std::vector<std::unique_ptr<Fib>> g_fib; static size_t g_cur = 0;
static void arrive() {
#ifdef VS_ASAN
  const void *b = nullptr; size_t n = 0; __sanitizer_finish_switch_fiber(g_fib[g_cur]->fake, &b, &n); (void)b; (void)n;
#endif
}
static void fiber_main(unsigned k) {
  arrive();
  try { g_fib[k]->fn(g_fib[k]->arg); } catch (...) { printf("UNCAUGHT in thread\n"); fflush(stdout); _Exit(1); }
  printf("fiber returned\n"); fflush(stdout); _Exit(1);
}
extern "C" {
uint64_t vs_fiber_new(void (*fn)(void *), void *arg) {
  if (g_fib.empty()) g_fib.emplace_back(new Fib);
  auto f = new Fib; f->fn = fn; f->arg = arg; f->n = 1 << 20; f->stk = (char *)malloc(f->n); getcontext(&f->uc); f->uc.uc_stack.ss_sp = f->stk; f->uc.uc_stack.ss_size = f->n; f->uc.uc_link = nullptr;
  g_fib.emplace_back(f); makecontext(&f->uc, (void (*)())fiber_main, 1, (unsigned)(g_fib.size() - 1)); return g_fib.size() - 1;
}
void vs_fiber_switch(uint64_t k) {
  if (k == g_cur) return;
  auto &a = *g_fib[g_cur], &b = *g_fib[k]; void **eh = (void **)__cxxabiv1::__cxa_get_globals();
  memcpy(a.eh, eh, sizeof a.eh); memcpy(eh, b.eh, sizeof b.eh); g_cur = k;
#ifdef VS_ASAN
  static const void *mb; static size_t mn; 
  if (&a == g_fib[0].get() && !mb) { pthread_attr_t at; pthread_getattr_np(pthread_self(), &at); void *p; pthread_attr_getstack(&at, &p, &mn); mb = p; pthread_attr_destroy(&at); }
  __sanitizer_start_switch_fiber(&a.fake, b.stk ? b.stk : mb, b.stk ? b.n : mn);
#endif
  swapcontext(&a.uc, &b.uc); arrive();
}
uint64_t vs_sym(const char *name, unsigned bits) { std::string n = std::string(name) + "#" + std::to_string(g_cnt[name]++); uint64_t v = look(n); if (bits < 64) v &= (1ull << bits) - 1; printf("value %s = 0x%llx\n", n.c_str(), (unsigned long long)v); return v; }
void vs_bytes(void *p, size_t len, const char *name) { std::string n = std::string(name) + "#" + std::to_string(g_cnt[name]++); printf("bytes %s =", n.c_str()); for (size_t i = 0; i < len; i++) { ((uint8_t *)p)[i] = (uint8_t)look(n + "[" + std::to_string(i) + "]"); printf(" %02x", ((uint8_t *)p)[i]); } printf("\n"); }
void vs_assume(bool c) { if (!c) { printf("ASSUME-FAILED\n"); fflush(stdout); _Exit(3); } }
void vs_assert(bool c, const char *id) { printf("assert %s %s\n", id, c ? "ok" : "FAILED"); if (!c) { fflush(stdout); _Exit(1); } }
void vs_reach(const char *id) { printf("reach %s\n", id); }
void vs_trail(const char *id) { printf("step %s\n", id); fflush(stdout); }
uint64_t vs_concretize(uint64_t v) { return v; }
void vs_check_init(const void *p, size_t n, const char *id) { printf("data %s:", id); for (size_t i = 0; i < n; i++) printf(" %02x", ((const uint8_t *)p)[i]); printf("\n"); }
void vs_end() { printf("END\n"); fflush(stdout); _Exit(0); }
}
int main(int argc, char **argv) {
  setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
  if (argc < 3) return 4;
  FILE *f = fopen(argv[2], "r"); if (!f) return 4;
  static char nm[4096]; unsigned long long v;
  while (fscanf(f, "%4095s %llx", nm, &v) == 2) g_vals[nm] = v;
  fclose(f);
  auto fn = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!fn) { printf("no entry %s\n", argv[1]); return 4; }
  try { fn(); } catch (std::exception &e) { printf("UNCAUGHT %s\n", typeid(e).name()); fflush(stdout); _Exit(1); }
  catch (...) { printf("UNCAUGHT\n"); fflush(stdout); _Exit(1); }
  printf("DONE\n"); fflush(stdout); _Exit(0);
}
