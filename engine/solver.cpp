#include "solver.h"
#include <z3.h>
#include <algorithm>
#include <chrono>
SolverStats g_ss;
unsigned g_queryTimeoutMs = 120000;
static Z3_context C;
static std::unordered_map<E, Z3_ast> bvMemo, boolMemo, fpMemo;
static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
void solverInit() {
  Z3_config cfg = Z3_mk_config();
  C = Z3_mk_context(cfg); Z3_set_error_handler(C, errh); Z3_del_config(cfg);
}
static Z3_sort fsort(unsigned w) { if (w == 32) return Z3_mk_fpa_sort_single(C); if (w == 64) return Z3_mk_fpa_sort_double(C); if (w == 79) return Z3_mk_fpa_sort(C, 15, 64); abort(); }
static Z3_ast BV(E e); static Z3_ast BO(E e); static Z3_ast FP(E e);
static Z3_ast rne() { return Z3_mk_fpa_rne(C); }

static Z3_ast num(u128 v, unsigned w) {
  char buf[64]; int n = 0; char tmp[64];
  if (v == 0) { buf[0] = '0'; buf[1] = 0; }
  else { while (v) { tmp[n++] = '0' + (int)(v % 10); v /= 10; } for (int i = 0; i < n; i++) buf[i] = tmp[n - 1 - i]; buf[n] = 0; }
  return Z3_mk_numeral(C, buf, Z3_mk_bv_sort(C, w));
}
static bool isFpOp(Op o) { switch (o) { case Op::FADD: case Op::FSUB: case Op::FMUL: case Op::FDIV: case Op::SITOF: case Op::UITOF: case Op::FCVT: case Op::FROUND: case Op::FSQRT: return true; default: return false; } }
static Z3_ast FP(E e) {
  auto it = fpMemo.find(e); if (it != fpMemo.end()) return it->second;
  Z3_ast r;
  switch (e->op) {
  case Op::FADD: r = Z3_mk_fpa_add(C, rne(), FP(e->a), FP(e->b)); break;
  case Op::FSUB: r = Z3_mk_fpa_sub(C, rne(), FP(e->a), FP(e->b)); break;
  case Op::FMUL: r = Z3_mk_fpa_mul(C, rne(), FP(e->a), FP(e->b)); break;
  case Op::FDIV: r = Z3_mk_fpa_div(C, rne(), FP(e->a), FP(e->b)); break;
  case Op::FSQRT: r = Z3_mk_fpa_sqrt(C, rne(), FP(e->a)); break;
  case Op::SITOF: r = Z3_mk_fpa_to_fp_signed(C, rne(), BV(e->a), fsort(e->w)); break;
  case Op::UITOF: r = Z3_mk_fpa_to_fp_unsigned(C, rne(), BV(e->a), fsort(e->w)); break;
  case Op::FCVT: r = Z3_mk_fpa_to_fp_float(C, rne(), FP(e->a), fsort(e->w)); break;
  case Op::FROUND: {
    Z3_ast m = e->k == 0 ? Z3_mk_fpa_rna(C) : e->k == 1 ? Z3_mk_fpa_rtn(C) : e->k == 2 ? Z3_mk_fpa_rtp(C) : e->k == 3 ? Z3_mk_fpa_rtz(C) : rne();
    r = Z3_mk_fpa_round_to_integral(C, m, FP(e->a)); break; }
  case Op::ITE: r = Z3_mk_ite(C, BO(e->a), FP(e->b), FP(e->c)); break;
  default: r = Z3_mk_fpa_to_fp_bv(C, BV(e), fsort(e->w)); break;
  }
  Z3_inc_ref(C, r); return fpMemo[e] = r;
}
static Z3_ast BV(E e) {
  auto it = bvMemo.find(e); if (it != bvMemo.end()) return it->second;
  Z3_ast r;
  auto fromBool = [&](E x) { return Z3_mk_ite(C, BO(x), num(1, 1), num(0, 1)); };
  switch (e->op) {
  case Op::CONST: r = num(e->k, e->w); break;
  case Op::VAR: { char nm[32]; snprintf(nm, 32, "v%u", (unsigned)e->k); r = Z3_mk_const(C, Z3_mk_string_symbol(C, nm), Z3_mk_bv_sort(C, e->w)); break; }
  case Op::UNDEF: r = Z3_mk_fresh_const(C, "undef", Z3_mk_bv_sort(C, e->w)); break;
  case Op::EXTRACT: r = Z3_mk_extract(C, (unsigned)e->k + e->w - 1, (unsigned)e->k, BV(e->a)); break;
  case Op::CONCAT: r = Z3_mk_concat(C, BV(e->a), BV(e->b)); break;
  case Op::SEXT: r = Z3_mk_sign_ext(C, e->w - e->a->w, BV(e->a)); break;
  case Op::ADD: r = Z3_mk_bvadd(C, BV(e->a), BV(e->b)); break;
  case Op::SUB: r = Z3_mk_bvsub(C, BV(e->a), BV(e->b)); break;
  case Op::MUL: r = Z3_mk_bvmul(C, BV(e->a), BV(e->b)); break;
  case Op::UDIV: r = Z3_mk_bvudiv(C, BV(e->a), BV(e->b)); break;
  case Op::SDIV: r = Z3_mk_bvsdiv(C, BV(e->a), BV(e->b)); break;
  case Op::UREM: r = Z3_mk_bvurem(C, BV(e->a), BV(e->b)); break;
  case Op::SREM: r = Z3_mk_bvsrem(C, BV(e->a), BV(e->b)); break;
  case Op::SHL: r = Z3_mk_bvshl(C, BV(e->a), BV(e->b)); break;
  case Op::LSHR: r = Z3_mk_bvlshr(C, BV(e->a), BV(e->b)); break;
  case Op::ASHR: r = Z3_mk_bvashr(C, BV(e->a), BV(e->b)); break;
  case Op::AND: r = e->w == 1 ? fromBool(e) : Z3_mk_bvand(C, BV(e->a), BV(e->b)); break;
  case Op::OR: r = e->w == 1 ? fromBool(e) : Z3_mk_bvor(C, BV(e->a), BV(e->b)); break;
  case Op::XOR: r = e->w == 1 ? fromBool(e) : Z3_mk_bvxor(C, BV(e->a), BV(e->b)); break;
  case Op::ITE: r = Z3_mk_ite(C, BO(e->a), BV(e->b), BV(e->c)); break;
  case Op::EQ: case Op::ULT: case Op::ULE: case Op::SLT: case Op::SLE: case Op::FEQ: case Op::FLT: case Op::FLE: case Op::FISNAN: r = fromBool(e); break;
  case Op::FTOSI: r = Z3_mk_fpa_to_sbv(C, Z3_mk_fpa_rtz(C), FP(e->a), e->w); break;
  case Op::FTOUI: r = Z3_mk_fpa_to_ubv(C, Z3_mk_fpa_rtz(C), FP(e->a), e->w); break;
  default: r = Z3_mk_fpa_to_ieee_bv(C, FP(e)); break;
  }
  Z3_inc_ref(C, r); return bvMemo[e] = r;
}
static Z3_ast BO(E e) {
  auto it = boolMemo.find(e); if (it != boolMemo.end()) return it->second;
  Z3_ast r;
  switch (e->op) {
  case Op::CONST: r = e->k ? Z3_mk_true(C) : Z3_mk_false(C); break;
  case Op::AND: { Z3_ast x[2] = {BO(e->a), BO(e->b)}; r = Z3_mk_and(C, 2, x); break; }
  case Op::OR: { Z3_ast x[2] = {BO(e->a), BO(e->b)}; r = Z3_mk_or(C, 2, x); break; }
  case Op::XOR: if (isC(e->b) && e->b->k == 1) r = Z3_mk_not(C, BO(e->a)); else r = Z3_mk_xor(C, BO(e->a), BO(e->b)); break;
  case Op::ITE: r = Z3_mk_ite(C, BO(e->a), BO(e->b), BO(e->c)); break;
  case Op::EQ: r = e->a->w == 1 ? Z3_mk_iff(C, BO(e->a), BO(e->b)) : Z3_mk_eq(C, BV(e->a), BV(e->b)); break;
  case Op::ULT: r = Z3_mk_bvult(C, BV(e->a), BV(e->b)); break;
  case Op::ULE: r = Z3_mk_bvule(C, BV(e->a), BV(e->b)); break;
  case Op::SLT: r = Z3_mk_bvslt(C, BV(e->a), BV(e->b)); break;
  case Op::SLE: r = Z3_mk_bvsle(C, BV(e->a), BV(e->b)); break;
  case Op::FEQ: r = Z3_mk_fpa_eq(C, FP(e->a), FP(e->b)); break;
  case Op::FLT: r = Z3_mk_fpa_lt(C, FP(e->a), FP(e->b)); break;
  case Op::FLE: r = Z3_mk_fpa_leq(C, FP(e->a), FP(e->b)); break;
  case Op::FISNAN: r = Z3_mk_fpa_is_nan(C, FP(e->a)); break;
  default: r = Z3_mk_eq(C, BV(e), num(1, 1)); break;
  }
  Z3_inc_ref(C, r); return boolMemo[e] = r;
}
static std::unordered_map<E, bool> fpUse;
static bool hasFP(E e) {
  if (!e) return false;
  if (e->op == Op::CONST || e->op == Op::VAR || e->op == Op::UNDEF) return false;
  auto it = fpUse.find(e); if (it != fpUse.end()) return it->second;
  bool r = e->op >= Op::FADD || hasFP(e->a) || hasFP(e->b) || hasFP(e->c);
  return fpUse[e] = r;
}
static void collectVars(const std::vector<E> &cs, std::vector<uint32_t> &out) {
  for (E c : cs) { auto &v = varsOf(c); out.insert(out.end(), v.begin(), v.end()); }
  std::sort(out.begin(), out.end()); out.erase(std::unique(out.begin(), out.end()), out.end());
}
struct CacheEnt { Res r; std::unordered_map<uint32_t, u128> m; };
struct VH { size_t operator()(const std::vector<uint32_t> &v) const { size_t h = 0; for (auto x : v) h = h * 1000003 + x; return h; } };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VH> qcache;

Res solve(const std::vector<E> &cs0, std::unordered_map<uint32_t, u128> *out) {
  std::vector<E> cs; 
  for (E c : cs0) { if (isC(c)) { if (!c->k) return Res::UNSAT; continue; } cs.push_back(c); }
  if (cs.empty()) return Res::SAT;
  std::vector<uint32_t> key; for (E c : cs) key.push_back(c->id);
  std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = qcache.find(key);
  if (it != qcache.end()) { g_ss.cached++; if (out && it->second.r == Res::SAT) for (auto &p : it->second.m) (*out)[p.first] = p.second; return it->second.r; }
  auto t0 = std::chrono::steady_clock::now();
  bool fp = false; for (E c : cs) fp |= hasFP(c);
  Z3_solver s;
  if (fp) { s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BVFP")); }
  else s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV"));
  Z3_solver_inc_ref(C, s);
  Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), g_queryTimeoutMs);
  Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p);
  for (E c : cs) Z3_solver_assert(C, s, BO(c));
  Z3_lbool r = Z3_solver_check(C, s);
  CacheEnt ce; ce.r = r == Z3_L_TRUE ? Res::SAT : r == Z3_L_FALSE ? Res::UNSAT : Res::UNKNOWN;
  if (ce.r == Res::SAT) {
    Z3_model m = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, m);
    std::vector<uint32_t> vs; collectVars(cs, vs);
    for (uint32_t v : vs) {
      unsigned w = g_vars[v].w; u128 val = 0;
      char nm[32]; snprintf(nm, 32, "v%u", v);
      Z3_ast c = Z3_mk_const(C, Z3_mk_string_symbol(C, nm), Z3_mk_bv_sort(C, w)); Z3_inc_ref(C, c);
      for (unsigned lo = 0; lo < w; lo += 64) {
        unsigned n = std::min(64u, w - lo);
        Z3_ast part = (w <= 64) ? c : Z3_mk_extract(C, lo + n - 1, lo, c);
        Z3_inc_ref(C, part); Z3_ast o = nullptr; uint64_t u = 0;
        if (Z3_model_eval(C, m, part, true, &o) && o) { Z3_inc_ref(C, o); Z3_get_numeral_uint64(C, o, &u); Z3_dec_ref(C, o); }
        Z3_dec_ref(C, part);
        val |= (u128)u << lo;
      }
      Z3_dec_ref(C, c);
      ce.m[v] = val;
    }
    Z3_model_dec_ref(C, m);
  }
  Z3_solver_dec_ref(C, s);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  g_ss.queries++; g_ss.secs += dt; g_ss.maxq = std::max(g_ss.maxq, dt);
  if (ce.r == Res::SAT) g_ss.sat++; else if (ce.r == Res::UNSAT) g_ss.unsat++; else g_ss.unknown++;
  if (getenv("VSYM_QDUMP") && dt > atof(getenv("VSYM_QDUMP"))) { for (E c : cs) fprintf(stderr, "%s\n", Z3_ast_to_string(C, BO(c))); fprintf(stderr, "---- %.3f\n", dt); }
  if (getenv("VSYM_QLOG") && dt > 1) fprintf(stderr, "[query %.2fs %d] %zu constraints\n", dt, (int)ce.r, cs.size());
  if (out && ce.r == Res::SAT) for (auto &q : ce.m) (*out)[q.first] = q.second;
  Res rr = ce.r;
  qcache[key] = std::move(ce);
  return rr;
}
