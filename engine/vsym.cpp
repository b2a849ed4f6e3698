// vsym: symbolic execution of LLVM-18 bitcode (C++ programs) with an SMT back end (z3).
// Every path of the entry function is executed with symbolic inputs; assertions, memory
// accesses, UB traps and uses of uninitialised data are decided by the solver for all
// values of the inputs.
#include "expr.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <algorithm>
#include <chrono>
#include <map>
#include <set>
#include <unordered_set>

using namespace llvm;
typedef uint64_t u64;

static const DataLayout *DL;
static Module *M;

// ------------------------------------------------------------------ values
struct Val {
  u64 c = 0; E e = nullptr; uint16_t w = 0;
  std::shared_ptr<std::vector<Val>> agg;
  bool conc() const { return !e && !agg; }
};
static inline u64 m64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static Val vc(u64 c, unsigned w) { Val v; v.c = c & m64(w); v.w = w; return v; }
static Val ve(E e) { Val v; v.w = e->w; if (isC(e) && e->w <= 64) v.c = (u64)e->k; else v.e = e; return v; }
static E toE(const Val &v) { if (v.e) return v.e; return mkConst(v.c, v.w); }
static Val vagg(std::vector<Val> x) { Val v; v.agg = std::make_shared<std::vector<Val>>(std::move(x)); return v; }
static s128 sx(u64 c, unsigned w) { return sext128(c, w); }

// ------------------------------------------------------------------ memory
enum class OK : uint8_t { GLOBAL, HEAP, STACK, FREED };
struct Obj {
  u64 base, size; OK kind; bool ro = false; std::string name;
  std::vector<uint8_t> d; std::vector<E> s; // s empty => all concrete; s[i] null => concrete byte
};
typedef std::shared_ptr<Obj> ObjP;

struct FnC;
struct Frame {
  FnC *f; uint32_t bb = 0, idx = 0; std::vector<Val> regs; std::vector<u64> allocas; int dst = -1;
};
typedef std::vector<std::pair<u64, u64>> Caught;
struct State {
  std::vector<Frame> st;                         // stack of the running fiber
  std::vector<std::pair<std::vector<Frame>, Caught>> fib = std::vector<std::pair<std::vector<Frame>, Caught>>(1); // the others
  unsigned cur = 0; int switchTo = -1;
  std::map<u64, ObjP> mem;
  std::vector<E> pc;
  std::shared_ptr<Model> model = std::make_shared<Model>();
  std::unordered_map<E, u64> known;
  std::unordered_map<std::string, unsigned> nameCnt;
  std::vector<E> symLog;
  Caught caught;                                 // exception ptr, typeinfo
  std::map<u64, std::pair<u64, u64>> excInfo;    // ptr -> typeinfo, dtor
  u64 next = 0x40000000;
  u64 instrs = 0; unsigned depth = 0;
  ObjP last; // lookup cache (may be stale-checked by address)
  std::vector<std::string> trail;
};

// ------------------------------------------------------------------ compiled code
struct Opnd { int slot = -1; Val v; };
enum class Bi : uint16_t;
struct Inst {
  const Instruction *I; unsigned op; int dst = -1; std::vector<Opnd> ops; unsigned w = 0;
  u64 goff = 0; std::vector<std::pair<int, u64>> gscale; // GEP: (operand index, scale)
  std::vector<int> succ; Type *ty = nullptr; Function *callee = nullptr; int builtin = -1; bool done = false;
  std::vector<std::pair<u64, int>> cases; unsigned sz = 0;
};
struct Phi { int dst; std::vector<std::pair<int, Opnd>> in; Inst *inst; };
struct BB { std::vector<Phi> phis; std::vector<Inst> ins; };
struct FnC { Function *F; std::vector<BB> bbs; unsigned nregs = 0; std::vector<int> args; std::string name; };

static std::unordered_map<Function *, FnC *> fnCache;
static std::unordered_map<const GlobalValue *, u64> gaddr;
static std::unordered_map<u64, Function *> faddr;
static std::map<std::string, u64> tiAddr; // typeinfo by name
static std::map<u64, std::string> tiName;
static std::map<u64, ObjP> roGlobals;
static std::map<u64, ObjP> initMem;

struct Violation { std::string kind, id, msg, where; std::vector<std::string> stack; std::vector<std::pair<std::string, std::pair<unsigned, u128>>> vals; std::vector<std::string> trail; };
static std::vector<Violation> violations;
static std::set<std::string> violKeys;
static std::map<std::string, unsigned> incompletes;
static std::map<std::string, u64> reached;
struct AssertStat { u64 conc = 0, sym = 0, fail = 0; };
static std::map<std::string, AssertStat> asserts;
static u64 nPaths = 0, nForks = 0, nInstr = 0, nKilled = 0, nMemChecks = 0;
static double maxTime = 600; static u64 maxPaths = 2000000; static unsigned maxFan = 300; static unsigned maxViol = 40;
static u64 maxPathInstr = 50000000;
static std::chrono::steady_clock::time_point T0;
static std::vector<std::unique_ptr<State>> work;

struct EndPath {};   // current path terminates
struct Retry {};     // (unused) 

static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }

[[noreturn]] static void incomplete(const std::string &why) { incompletes[why]++; throw EndPath(); }

static std::string dem(StringRef n) { return llvm::demangle(n.str()); }
static std::string where(const Instruction *I) {
  if (const DebugLoc &d = I->getDebugLoc()) {
    const DILocation *L = d.get(); 
    std::string s = (L->getDirectory().empty() || L->getFilename().starts_with("/") ? "" : L->getDirectory().str() + "/") + L->getFilename().str() + ":" + std::to_string(L->getLine());
    return s;
  }
  return I->getFunction()->getName().str();
}
static void stackOf(State &S, std::vector<std::string> &out) {
  for (auto it = S.st.rbegin(); it != S.st.rend(); ++it) {
    auto &b = it->f->bbs[it->bb]; if (it->idx >= b.ins.size()) continue;
    const Instruction *I = b.ins[it->idx].I;
    if (const DILocation *L = I->getDebugLoc().get()) {
      for (; L; L = L->getInlinedAt()) {
        auto *sp = L->getScope()->getSubprogram();
        out.push_back((sp ? (sp->getLinkageName().empty() ? sp->getName().str() : dem(sp->getLinkageName())) : it->f->name) + " @ " + L->getFilename().str() + ":" + std::to_string(L->getLine()));
        if (out.size() > 40) return;
      }
    } else out.push_back(dem(it->f->name));
  }
}
static std::string shortWhere(State &S) {
  // innermost location in the repository under test (or generated code), else innermost
  std::vector<std::string> st; stackOf(S, st);
  for (auto &s : st) if (s.find("vrtgen") != std::string::npos && s.find("@ /usr/") == std::string::npos) return s;
  return st.empty() ? "" : st[0];
}
static std::vector<std::vector<std::pair<std::string, std::pair<unsigned, u128>>>> witnesses; static size_t maxWit = 3;
static void violate(State &S, const std::string &kind, const std::string &id, const std::string &msg, const Model &m) {
  std::string wh = shortWhere(S);
  std::string key = kind + "|" + id + "|" + (kind == "assert" ? "" : wh + "|" + msg.substr(0, 60));
  if (kind == "assert") asserts[id].fail++;
  if (!violKeys.insert(key).second) return;
  Violation v; v.kind = kind; v.id = id; v.msg = msg; v.where = wh;
  stackOf(S, v.stack);
  for (E e : S.symLog) v.vals.push_back({g_vars[(size_t)e->k].name, {e->w, evalE(e, m)}});
  v.trail = S.trail;
  violations.push_back(v);
}

// ------------------------------------------------------------------ solver glue
static void slice(State &S, const std::vector<E> &conds, std::vector<E> &out) {
  std::unordered_set<uint32_t> vs;
  for (E c : conds) for (auto v : varsOf(c)) vs.insert(v);
  std::vector<char> used(S.pc.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < S.pc.size(); i++) {
      if (used[i]) continue;
      auto &cv = varsOf(S.pc[i]); bool hit = false;
      for (auto v : cv) if (vs.count(v)) { hit = true; break; }
      if (!hit) continue;
      used[i] = 1; ch = true; out.push_back(S.pc[i]);
      for (auto v : cv) vs.insert(v);
    }
  }
  for (E c : conds) out.push_back(c);
}
static Res feasible(State &S, E cond, std::shared_ptr<Model> *outM) {
  if (isC(cond)) { if (cond->k && outM) *outM = S.model; return cond->k ? Res::SAT : Res::UNSAT; }
  if (evalE(cond, *S.model) && !cond->undef) { if (outM) *outM = S.model; return Res::SAT; }
  std::vector<E> cs; slice(S, {cond}, cs);
  std::unordered_map<uint32_t, u128> vals;
  Res r = solve(cs, &vals);
  if (r == Res::SAT && outM) { auto nm = std::make_shared<Model>(); nm->val = S.model->val; for (auto &p : vals) nm->val[p.first] = p.second; *outM = nm; }
  return r;
}
static void addPC(State &S, E c) { 
  if (isC(c)) return;
  if (c->op == Op::AND && c->w == 1) { addPC(S, c->a); addPC(S, c->b); return; }
  for (E x : S.pc) if (x == c) return;
  S.pc.push_back(c);
}
static E substUndef(E e, E (*mk)(unsigned), std::unordered_map<E, E> &memo) {
  if (!e || !e->undef) return e;
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  E r;
  if (e->op == Op::UNDEF) r = mk(e->w);
  else {
    E a = substUndef(e->a, mk, memo), b = substUndef(e->b, mk, memo), c = substUndef(e->c, mk, memo);
    switch (e->op) {
    case Op::EXTRACT: r = mkExtract(a, (unsigned)e->k, e->w); break;
    case Op::CONCAT: r = mkConcat(a, b); break;
    case Op::SEXT: r = mkSExt(a, e->w); break;
    case Op::ITE: r = mkITE(a, b, c); break;
    default: if (e->op >= Op::FADD) r = mkF(e->op, e->w, a, b, e->k); else r = mkBin(e->op, a, b);
    }
  }
  return memo[e] = r;
}
static E undefZero(unsigned w) { if (w > 128) return mkConcat(mkConst(0, 128), undefZero(w - 128)); return mkConst(0, w); }
static E undefVar(unsigned w) { return mkVar("undef$" + std::to_string(w), w); }
// resolves undef in an expression; reports if its value really depends on uninitialised data
static E useDefined(State &S, E e, const char *what) {
  if (!e->undef) return e;
  std::unordered_map<E, E> m1, m2;
  E z = substUndef(e, undefZero, m1), f = substUndef(e, undefVar, m2);
  if (z == f) return z;
  E diff = mkNot(mkBin(Op::EQ, z, f));
  std::shared_ptr<Model> mm;
  Res r = feasible(S, diff, &mm);
  if (r == Res::UNKNOWN) incomplete("solver-unknown");
  if (r == Res::SAT) { violate(S, "uninit", what, std::string("uninitialised data used: ") + what, *mm); throw EndPath(); }
  return z;
}

static bool forkTrace = getenv("VS_FORKS"); static std::map<std::string, u64> forkAt; // where paths split (development aid)
static void pushState(std::unique_ptr<State> s) {
  nForks++;
  if (forkTrace) { std::vector<std::string> k; stackOf(*s, k); std::string t; for (size_t i = 0; i < k.size() && i < 3; i++) t += (i ? " < " : "") + k[i].substr(0, 90); forkAt[t]++; }
  work.push_back(std::move(s)); }

// concretise a value; forks the state (the clone re-executes the current instruction)
static u64 concretize(State &S, const Val &v, const char *what) {
  if (v.conc()) return v.c;
  if (v.agg) incomplete("concretize aggregate");
  E e = v.e;
  if (e->undef) { e = useDefined(S, e, what); if (isC(e)) return (u64)e->k; }
  auto it = S.known.find(e); if (it != S.known.end()) return it->second;
  u128 val = evalE(e, *S.model);
  E eq = mkBin(Op::EQ, e, mkConst(val, e->w));
  std::shared_ptr<Model> om;
  Res r = feasible(S, mkNot(eq), &om);
  if (r == Res::UNKNOWN) incomplete("solver-unknown");
  if (r == Res::SAT) {
    static std::unordered_map<const void *, unsigned> fan;
    if (++S.depth > maxFan * 20) incomplete(std::string("fan-out limit: ") + what);
    auto n = std::make_unique<State>(S); n->model = om; addPC(*n, mkNot(eq));
    pushState(std::move(n));
  }
  addPC(S, eq);
  S.known[e] = (u64)val;
  return (u64)val;
}
// returns truth of cond on this path, forking if both are feasible (fork continues at (re-executed) same instruction)
static bool decide(State &S, E c) {
  if (c->undef) c = useDefined(S, c, "branch condition");
  if (isC(c)) return c->k;
  auto it = S.known.find(c); if (it != S.known.end()) return it->second;
  bool v = (bool)evalE(c, *S.model);
  E yes = v ? c : mkNot(c), no = v ? mkNot(c) : c;
  std::shared_ptr<Model> om;
  Res r = feasible(S, no, &om);
  if (r == Res::UNKNOWN) incomplete("solver-unknown");
  if (r == Res::SAT) {
    auto n = std::make_unique<State>(S); n->model = om; addPC(*n, no); n->known[c] = !v;
    pushState(std::move(n));
  }
  addPC(S, yes); S.known[c] = v;
  return v;
}

// ------------------------------------------------------------------ memory access
static ObjP *findObj(State &S, u64 a) {
  auto it = S.mem.upper_bound(a);
  if (it != S.mem.begin()) { --it; Obj &o = *it->second; if (a >= o.base && a <= o.base + o.size) return &it->second; }
  auto g = roGlobals.upper_bound(a);
  if (g != roGlobals.begin()) { --g; Obj &o = *g->second; if (a >= o.base && a <= o.base + o.size) return &g->second; }
  return nullptr;
}
static void memErr(State &S, const std::string &m) { violate(S, "memory", "", m, *S.model); throw EndPath(); }
static Obj &access(State &S, u64 a, u64 n, bool wr) {
  nMemChecks++;
  ObjP *p = findObj(S, a);
  const char *rw = wr ? "write" : "read";
  if (!p) memErr(S, std::string(a < 4096 ? "null-pointer " : "wild ") + rw + " of " + std::to_string(n) + " bytes");
  Obj *o = p->get();
  if (o->kind == OK::FREED) memErr(S, std::string("use-after-free ") + rw + " of " + std::to_string(n) + " bytes");
  if (a + n > o->base + o->size || a + n < a) memErr(S, std::string("out-of-bounds ") + rw + " of " + std::to_string(n) + " bytes at offset " + std::to_string(a - o->base) + " of a " + std::to_string(o->size) + "-byte " + (o->kind == OK::HEAP ? "heap" : o->kind == OK::STACK ? "stack" : "global") + " object");
  if (wr) {
    if (o->ro) memErr(S, "write to constant object");
    if (p->use_count() > 1) { *p = std::make_shared<Obj>(*o); o = p->get(); }
  }
  return *o;
}
static u64 allocObj(State &S, u64 size, OK kind, u64 align = 16, bool zero = false, const std::string &nm = "") {
  if (align < 16) align = 16;
  auto o = std::make_shared<Obj>();
  o->base = (S.next + align - 1) / align * align; o->size = size; o->kind = kind; o->name = nm;
  S.next = o->base + size + 4096;
  o->d.assign(size, 0);
  if (!zero) o->s.assign(size, mkUndef(8));
  S.mem[o->base] = o;
  return o->base;
}
static void freeObj(State &S, u64 a, const char *what) {
  if (!a) return;
  auto it = S.mem.find(a);
  if (it == S.mem.end()) memErr(S, std::string(what) + " of a pointer that was not allocated");
  if (it->second->kind == OK::FREED) memErr(S, std::string("double ") + what);
  if (it->second->kind != OK::HEAP) memErr(S, std::string(what) + " of non-heap memory");
  auto n = std::make_shared<Obj>(); n->base = it->second->base; n->size = it->second->size; n->kind = OK::FREED; it->second = n;
}
static E byteAt(const Obj &o, u64 off) { if (!o.s.empty() && o.s[off]) return o.s[off]; return mkConst(o.d[off], 8); }
static void setByte(Obj &o, u64 off, E e) {
  if (isC(e)) { o.d[off] = (uint8_t)e->k; if (!o.s.empty()) o.s[off] = nullptr; }
  else { if (o.s.empty()) o.s.assign(o.size, nullptr); o.s[off] = e; }
}
static Val loadInt(State &S, u64 a, unsigned w) { // w bits, w multiple of 8 (or <8 -> 1 byte)
  unsigned n = (w + 7) / 8;
  Obj &o = access(S, a, n, false);
  u64 off = a - o.base;
  bool allc = true;
  if (!o.s.empty()) for (unsigned i = 0; i < n; i++) if (o.s[off + i]) { allc = false; break; }
  if (allc && n <= 8) { u64 v = 0; memcpy(&v, &o.d[off], n); return vc(v, w); }
  E r = nullptr;
  for (unsigned i = 0; i < n; i++) { E b = byteAt(o, off + i); r = r ? mkConcat(b, r) : b; }
  if (r->w != w) r = mkExtract(r, 0, w);
  return ve(r);
}
static void storeInt(State &S, u64 a, const Val &v) {
  unsigned n = (v.w + 7) / 8;
  Obj &o = access(S, a, n, true);
  u64 off = a - o.base;
  if (v.conc()) { memcpy(&o.d[off], &v.c, n); if (!o.s.empty()) for (unsigned i = 0; i < n; i++) o.s[off + i] = nullptr; return; }
  E e = v.e; if (e->w != n * 8) e = mkZExt(e, n * 8);
  for (unsigned i = 0; i < n; i++) setByte(o, off + i, mkExtract(e, 8 * i, 8));
}
static bool isF80(Type *t) { return t->isX86_FP80Ty(); }
static unsigned widthOf(Type *t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; if (isF80(t)) return 79;
  return 0;
}
static E f80pack(E v) { // 79 -> 80 bits (x87)
  E ex = mkExtract(v, 63, 15), fr = mkExtract(v, 0, 63), s = mkExtract(v, 78, 1);
  E ib = mkNot(mkBin(Op::EQ, ex, mkConst(0, 15)));
  return mkConcat(mkConcat(s, ex), mkConcat(ib, fr));
}
static E f80unpack(E v) { return mkConcat(mkExtract(v, 64, 16), mkExtract(v, 0, 63)); }
static Val load(State &S, u64 a, Type *t) {
  if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
    std::vector<Val> r;
    if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) r.push_back(load(S, a + sl->getElementOffset(i), st->getElementType(i))); }
    else if (auto *at = dyn_cast<ArrayType>(t)) { u64 sz = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) r.push_back(load(S, a + i * sz, at->getElementType())); }
    else { auto *vt = cast<FixedVectorType>(t); u64 bits = DL->getTypeSizeInBits(vt->getElementType()); if (bits % 8) incomplete("sub-byte vector load"); for (unsigned i = 0; i < vt->getNumElements(); i++) r.push_back(load(S, a + i * bits / 8, vt->getElementType())); }
    return vagg(std::move(r));
  }
  if (isF80(t)) { Val v = loadInt(S, a, 80); return ve(f80unpack(toE(v))); }
  return loadInt(S, a, widthOf(t));
}
static void store(State &S, u64 a, const Val &v, Type *t) {
  if (v.agg) {
    if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) store(S, a + sl->getElementOffset(i), (*v.agg)[i], st->getElementType(i)); }
    else if (auto *at = dyn_cast<ArrayType>(t)) { u64 sz = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) store(S, a + i * sz, (*v.agg)[i], at->getElementType()); }
    else { auto *vt = cast<FixedVectorType>(t); u64 bits = DL->getTypeSizeInBits(vt->getElementType()); if (bits % 8) incomplete("sub-byte vector store"); for (unsigned i = 0; i < vt->getNumElements(); i++) store(S, a + i * bits / 8, (*v.agg)[i], vt->getElementType()); }
    return;
  }
  if (isF80(t)) { storeInt(S, a, ve(f80pack(toE(v)))); return; }
  storeInt(S, a, v);
}
static void copyMem(State &S, u64 d, u64 s, u64 n) {
  if (!n) return;
  ObjP src; { Obj &o = access(S, s, n, false); (void)o; ObjP *p = findObj(S, s); src = *p; }
  Obj &o = access(S, d, n, true);
  u64 so = s - src->base, to = d - o.base;
  if (src.get() == &o || src->base == o.base) { // overlapping: via temp
    std::vector<uint8_t> td(src->d.begin() + so, src->d.begin() + so + n); std::vector<E> ts;
    if (!src->s.empty()) ts.assign(src->s.begin() + so, src->s.begin() + so + n);
    memcpy(&o.d[to], td.data(), n);
    if (!ts.empty()) { if (o.s.empty()) o.s.assign(o.size, nullptr); std::copy(ts.begin(), ts.end(), o.s.begin() + to); }
    else if (!o.s.empty()) std::fill(o.s.begin() + to, o.s.begin() + to + n, nullptr);
    return;
  }
  memcpy(&o.d[to], &src->d[so], n);
  if (!src->s.empty()) {
    bool any = false; for (u64 i = 0; i < n; i++) if (src->s[so + i]) { any = true; break; }
    if (any || !o.s.empty()) { if (o.s.empty()) o.s.assign(o.size, nullptr); std::copy(src->s.begin() + so, src->s.begin() + so + n, o.s.begin() + to); }
  } else if (!o.s.empty()) std::fill(o.s.begin() + to, o.s.begin() + to + n, nullptr);
}
static std::string cstr(State &S, u64 a) {
  std::string r; for (;;) { Obj &o = access(S, a, 1, false); E b = byteAt(o, a - o.base); if (!isC(b)) return r + "?"; if (!b->k) return r; r += (char)b->k; a++; if (r.size() > 500) return r; }
}

// ------------------------------------------------------------------ constants
static Val constVal(const Constant *C);
static u64 addrOf(const GlobalValue *g) {
  auto it = gaddr.find(g); if (it != gaddr.end()) return it->second;
  if (auto *al = dyn_cast<GlobalAlias>(g)) { if (auto *t = dyn_cast<GlobalValue>(al->getAliasee()->stripPointerCasts())) return addrOf(t); }
  errs() << "no address for " << g->getName() << "\n"; exit(3);
}
static u64 constGEPoff(const GEPOperator *g) { APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) { errs() << "gep const\n"; exit(3); } return off.getZExtValue(); }
static E fpConstE(const APFloat &f) {
  APInt b = f.bitcastToAPInt();
  if (b.getBitWidth() == 80) { u128 v = b.extractBitsAsZExtValue(64, 0); v |= (u128)b.extractBitsAsZExtValue(16, 64) << 64; return f80unpack(mkConst(v, 80)); }
  return mkConst(b.getZExtValue(), b.getBitWidth());
}
static Val zeroOf(Type *t, bool undef) {
  if (auto *st = dyn_cast<StructType>(t)) { std::vector<Val> r; for (auto *x : st->elements()) r.push_back(zeroOf(x, undef)); return vagg(r); }
  if (auto *at = dyn_cast<ArrayType>(t)) { std::vector<Val> r(at->getNumElements(), zeroOf(at->getElementType(), undef)); return vagg(r); }
  if (auto *vt = dyn_cast<FixedVectorType>(t)) { std::vector<Val> r(vt->getNumElements(), zeroOf(vt->getElementType(), undef)); return vagg(r); }
  unsigned w = widthOf(t); if (!w) w = 1;
  if (undef) return ve(mkUndef(w));
  if (w > 64) return ve(mkConst(0, w));
  return vc(0, w);
}
static Val constVal(const Constant *C) {
  if (auto *ci = dyn_cast<ConstantInt>(C)) {
    unsigned w = ci->getBitWidth(); if (w <= 64) return vc(ci->getZExtValue(), w);
    const APInt &a = ci->getValue(); E r = nullptr;
    for (unsigned lo = 0; lo < w; lo += 64) { unsigned n = std::min(64u, w - lo); E p = mkConst(a.extractBitsAsZExtValue(n, lo), n); r = r ? mkConcat(p, r) : p; }
    return ve(r);
  }
  if (auto *cf = dyn_cast<ConstantFP>(C)) return ve(fpConstE(cf->getValueAPF()));
  if (isa<ConstantPointerNull>(C)) return vc(0, 64);
  if (isa<UndefValue>(C)) return zeroOf(C->getType(), true);
  if (isa<ConstantAggregateZero>(C)) return zeroOf(C->getType(), false);
  if (auto *gv = dyn_cast<GlobalValue>(C)) return vc(addrOf(gv), 64);
  if (auto *ca = dyn_cast<ConstantAggregate>(C)) { std::vector<Val> r; for (auto &o : ca->operands()) r.push_back(constVal(cast<Constant>(o.get()))); return vagg(r); }
  if (auto *cd = dyn_cast<ConstantDataSequential>(C)) { std::vector<Val> r; for (unsigned i = 0; i < cd->getNumElements(); i++) r.push_back(constVal(cd->getElementAsConstant(i))); return vagg(r); }
  if (auto *ce = dyn_cast<ConstantExpr>(C)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: { Val b = constVal(ce->getOperand(0)); return vc(b.c + constGEPoff(cast<GEPOperator>(ce)), 64); }
    case Instruction::BitCast: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: { Val v = constVal(ce->getOperand(0)); return vc(v.c, widthOf(ce->getType())); }
    case Instruction::Add: { Val a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1)); return vc(a.c + b.c, a.w); }
    case Instruction::Sub: { Val a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1)); return vc(a.c - b.c, a.w); }
    case Instruction::ICmp: { Val a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1)); if (ce->getPredicate() == CmpInst::ICMP_EQ) return vc(a.c == b.c, 1); if (ce->getPredicate() == CmpInst::ICMP_NE) return vc(a.c != b.c, 1); break; }
    default: break;
    }
  }
  if (C->getType()->isTokenTy()) return vc(0, 1);
  errs() << "constant? " << *C << "\n"; exit(3);
}
static void initBytes(const Constant *C, Obj &o, u64 off) {
  Type *t = C->getType();
  if (isa<ConstantAggregateZero>(C)) return;
  if (isa<UndefValue>(C)) return;
  if (auto *cd = dyn_cast<ConstantDataSequential>(C)) { StringRef r = cd->getRawDataValues(); memcpy(&o.d[off], r.data(), r.size()); return; }
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initBytes(C->getAggregateElement(i), o, off + sl->getElementOffset(i)); return; }
  if (auto *at = dyn_cast<ArrayType>(t)) { u64 sz = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) initBytes(C->getAggregateElement(i), o, off + i * sz); return; }
  if (auto *vt = dyn_cast<FixedVectorType>(t)) { u64 sz = DL->getTypeAllocSize(vt->getElementType()); for (u64 i = 0; i < vt->getNumElements(); i++) initBytes(C->getAggregateElement(i), o, off + i * sz); return; }
  Val v = constVal(C);
  if (isF80(t)) v = ve(f80pack(toE(v)));
  unsigned n = (v.w + 7) / 8; E e = toE(v); if (e->w != n * 8) e = mkZExt(e, n * 8);
  for (unsigned i = 0; i < n; i++) setByte(o, off + i, mkExtract(e, 8 * i, 8));
}

// ------------------------------------------------------------------ builtins
typedef std::function<Val(State &, Inst &, std::vector<Val> &)> BFn; // may throw EndPath / ExcThrow
struct ExcThrow { u64 ptr; u64 ti; };
static std::vector<BFn> bfns; static std::unordered_map<std::string, int> bidx;
static std::set<std::string> noop;

static u64 tiOf(const std::string &n) {
  auto it = tiAddr.find(n); if (it != tiAddr.end()) return it->second;
  static u64 nx = 0x20000000; nx += 64; tiAddr[n] = nx; tiName[nx] = n; return nx;
}
static const std::map<std::string, std::string> stdParents = {
  {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"},
  {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt13runtime_error", "_ZTISt9exception"},
  {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"},
  {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"},
  {"_ZTISt19bad_optional_access", "_ZTISt9exception"}, {"_ZTISt18bad_variant_access", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"},
  {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt12bad_any_cast", "_ZTISt8bad_cast"}, {"_ZTISt12future_error", "_ZTISt11logic_error"}, {"_ZTISt12bad_weak_ptr", "_ZTISt9exception"}};
static bool derives(const std::string &from, const std::string &to) {
  if (from == to) return true;
  if (auto *g = M->getGlobalVariable(from, true)) if (g->hasInitializer()) {
    const Constant *c = g->getInitializer();
    for (unsigned i = 2; i < c->getNumOperands(); i++) {
      auto *op = dyn_cast<Constant>(c->getOperand(i)); if (!op) continue;
      auto *b = dyn_cast<GlobalVariable>(op->stripPointerCasts());
      if (b && b->getName().starts_with("_ZTI") && derives(b->getName().str(), to)) return true;
    }
  }
  auto it = stdParents.find(from); return it != stdParents.end() && derives(it->second, to);
}
[[noreturn]] static void throwStd(State &S, const std::string &ti) { u64 p = allocObj(S, 64, OK::HEAP, 16, true); u64 t = tiOf(ti); S.excInfo[p] = {t, 0}; throw ExcThrow{p, t}; }

static void addB(const std::string &n, BFn f) { bidx[n] = (int)bfns.size(); bfns.push_back(std::move(f)); }
static std::string symName(State &S, const std::string &base) { unsigned k = S.nameCnt[base]++; return base + "#" + std::to_string(k); }

static Val doMemcmp(State &S, u64 a, u64 b, u64 n) {
  // result as a 32-bit sign of the first differing byte
  E r = mkConst(0, 32);
  for (u64 i = n; i-- > 0;) {
    Obj &oa = access(S, a + i, 1, false); E x = byteAt(oa, a + i - oa.base);
    Obj &ob = access(S, b + i, 1, false); E y = byteAt(ob, b + i - ob.base);
    E eq = mkBin(Op::EQ, x, y);
    r = mkITE(eq, r, mkITE(mkBin(Op::ULT, x, y), mkConst(0xffffffffu, 32), mkConst(1, 32)));
  }
  return ve(r);
}

static void doAssert(State &S, E c, const std::string &id, const std::string &msg) {
  AssertStat &as = asserts[id];
  if (c->undef) { try { c = useDefined(S, c, id.c_str()); } catch (EndPath &) { as.fail++; throw; } }
  if (isC(c)) { as.conc++; if (!c->k) { violate(S, "assert", id, msg, *S.model); throw EndPath(); } return; }
  std::shared_ptr<Model> mm;
  Res r = feasible(S, mkNot(c), &mm);
  if (r == Res::UNKNOWN) incomplete("solver-unknown: " + id);
  as.sym++;
  if (r == Res::SAT) {
    violate(S, "assert", id, msg, *mm);
    std::shared_ptr<Model> m2; if (feasible(S, c, &m2) != Res::SAT) throw EndPath();
    S.model = m2; addPC(S, c);
  }
}

static FnC *compile(Function *F);
static void setupBuiltins() {
  auto A64 = [](State &S, Val &v, const char *w) { return concretize(S, v, w); };
  // ---- harness interface
  addB("vs_sym", [=](State &S, Inst &, std::vector<Val> &a) { std::string n = symName(S, cstr(S, A64(S, a[0], "name"))); unsigned w = (unsigned)A64(S, a[1], "width"); E v = mkVar(n, w); S.symLog.push_back(v); return ve(mkZExt(v, 64)); });
  addB("vs_bytes", [=](State &S, Inst &, std::vector<Val> &a) {
    std::string n = symName(S, cstr(S, A64(S, a[2], "name"))); u64 p = A64(S, a[0], "ptr"), len = A64(S, a[1], "len");
    if (len) { Obj &o = access(S, p, len, true); for (u64 i = 0; i < len; i++) { E v = mkVar(n + "[" + std::to_string(i) + "]", 8); S.symLog.push_back(v); setByte(o, p - o.base + i, v); } }
    return vc(0, 64); });
  addB("vs_assume", [=](State &S, Inst &, std::vector<Val> &a) {
    E c = toE(a[0]); if (c->w != 1) c = mkNot(mkBin(Op::EQ, c, mkConst(0, c->w)));
    if (c->undef) c = useDefined(S, c, "assume");
    std::shared_ptr<Model> mm; Res r = feasible(S, c, &mm);
    if (r == Res::UNKNOWN) incomplete("solver-unknown: assume");
    if (r == Res::UNSAT) { nKilled++; throw EndPath(); }
    S.model = mm; addPC(S, c); return vc(0, 64); });
  addB("vs_assert", [=](State &S, Inst &, std::vector<Val> &a) {
    E c = toE(a[0]); if (c->w != 1) c = mkNot(mkBin(Op::EQ, c, mkConst(0, c->w)));
    std::string id = cstr(S, A64(S, a[1], "id")); doAssert(S, c, id, "assertion " + id + " fails"); return vc(0, 64); });
  addB("vs_reach", [=](State &S, Inst &, std::vector<Val> &a) { reached[cstr(S, A64(S, a[0], "id"))]++; return vc(0, 64); });
  addB("vs_trail", [=](State &S, Inst &, std::vector<Val> &a) { S.trail.push_back(cstr(S, A64(S, a[0], "id"))); return vc(0, 64); });
  addB("vs_concretize", [=](State &S, Inst &, std::vector<Val> &a) { return vc(A64(S, a[0], "concretize"), 64); });
  addB("vs_check_init", [=](State &S, Inst &, std::vector<Val> &a) {
    u64 p = A64(S, a[0], "ptr"), n = A64(S, a[1], "len"); std::string id = cstr(S, A64(S, a[2], "id"));
    AssertStat &as = asserts[id];
    for (u64 i = 0; i < n; i++) { Obj &o = access(S, p + i, 1, false); E b = byteAt(o, p + i - o.base); if (b->undef) { try { useDefined(S, b, id.c_str()); } catch (EndPath &) { as.fail++; throw; } } }
    as.conc++; return vc(0, 64); });
  // ---- fibers: cooperative threads of control (vs_sched.h builds threads, locks and waits on them)
  addB("vs_fiber_new", [=](State &S, Inst &, std::vector<Val> &a) {
    auto it = faddr.find(A64(S, a[0], "fiber")); if (it == faddr.end() || it->second->isDeclaration()) incomplete("fiber entry");
    Frame fr; fr.f = compile(it->second); fr.regs.resize(fr.f->nregs); if (!fr.f->args.empty()) fr.regs[fr.f->args[0]] = a[1];
    S.fib.push_back({{fr}, {}}); return vc(S.fib.size() - 1, 64); });
  addB("vs_fiber_switch", [=](State &S, Inst &, std::vector<Val> &a) { u64 k = A64(S, a[0], "fiber"); if (k >= S.fib.size()) incomplete("fiber"); S.switchTo = (int)k; return vc(0, 64); });
  addB("vs_end", [=](State &, Inst &, std::vector<Val> &) -> Val { throw EndPath(); });
  addB("vs_heap_bytes", [=](State &S, Inst &, std::vector<Val> &) { u64 n = 0; for (auto &p : S.mem) if (p.second->kind == OK::HEAP) n += p.second->size; return vc(n, 64); });
  addB("vs_obj_room", [=](State &S, Inst &, std::vector<Val> &a) { u64 p = A64(S, a[0], "ptr"); ObjP *o = findObj(S, p); return vc(!o || (*o)->kind == OK::FREED ? 0 : (*o)->base + (*o)->size - p, 64); });
  // ---- allocation
  auto alloc = [=](State &S, Inst &, std::vector<Val> &a) { u64 n = A64(S, a[0], "allocation size"); if (n > (1u << 26)) { violate(S, "memory", "", "allocation of " + std::to_string(n) + " bytes", *S.model); throw EndPath(); } return vc(allocObj(S, n, OK::HEAP), 64); };
  for (auto n : {"_Znwm", "_Znam", "malloc", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"}) addB(n, alloc);
  addB("calloc", [=](State &S, Inst &, std::vector<Val> &a) { u64 n = A64(S, a[0], "calloc") * A64(S, a[1], "calloc"); return vc(allocObj(S, n, OK::HEAP, 16, true), 64); });
  auto dealloc = [=](State &S, Inst &, std::vector<Val> &a) { freeObj(S, A64(S, a[0], "free"), "free"); return vc(0, 64); };
  for (auto n : {"_ZdlPv", "_ZdaPv", "free", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) addB(n, dealloc);
  // ---- mem*
  auto mcpy = [=](State &S, Inst &, std::vector<Val> &a) { u64 n = A64(S, a[2], "copy size"); u64 d = A64(S, a[0], "copy destination"), s = A64(S, a[1], "copy source"); copyMem(S, d, s, n); return vc(d, 64); };
  addB("memcpy", mcpy); addB("memmove", mcpy);
  addB("memset", [=](State &S, Inst &, std::vector<Val> &a) { u64 n = A64(S, a[2], "set size"); u64 d = A64(S, a[0], "set destination"); if (n) { E b = mkExtract(toE(a[1]), 0, 8); Obj &o = access(S, d, n, true); for (u64 i = 0; i < n; i++) setByte(o, d - o.base + i, b); } return vc(d, 64); });
  auto mcmp = [=](State &S, Inst &, std::vector<Val> &a) { u64 n = A64(S, a[2], "cmp size"); return doMemcmp(S, A64(S, a[0], "cmp"), A64(S, a[1], "cmp"), n); };
  addB("memcmp", mcmp); addB("bcmp", mcmp);
  addB("strlen", [=](State &S, Inst &, std::vector<Val> &a) { u64 p = A64(S, a[0], "strlen"); u64 n = 0; for (;; n++) { Obj &o = access(S, p + n, 1, false); E b = byteAt(o, p + n - o.base); if (isC(b)) { if (!b->k) break; } else if (decide(S, mkBin(Op::EQ, b, mkConst(0, 8)))) break; } return vc(n, 64); });
  addB("memchr", [=](State &S, Inst &, std::vector<Val> &a) { u64 p = A64(S, a[0], "memchr"), n = A64(S, a[2], "memchr"); E ch = mkExtract(toE(a[1]), 0, 8); for (u64 i = 0; i < n; i++) { Obj &o = access(S, p + i, 1, false); if (decide(S, mkBin(Op::EQ, byteAt(o, p + i - o.base), ch))) return vc(p + i, 64); } return vc(0, 64); });
  // ---- exceptions
  addB("__cxa_allocate_exception", [=](State &S, Inst &, std::vector<Val> &a) { return vc(allocObj(S, A64(S, a[0], "exc") + 64, OK::HEAP, 16, true), 64); });
  addB("__cxa_free_exception", dealloc);
  addB("__cxa_throw", [=](State &S, Inst &, std::vector<Val> &a) -> Val { S.excInfo[a[0].c] = {a[1].c, a[2].c}; throw ExcThrow{a[0].c, a[1].c}; });
  addB("__cxa_rethrow", [=](State &S, Inst &, std::vector<Val> &) -> Val { if (S.caught.empty()) incomplete("rethrow"); auto p = S.caught.back(); throw ExcThrow{p.first, p.second}; });
  addB("__cxa_begin_catch", [=](State &S, Inst &, std::vector<Val> &a) { S.caught.push_back({a[0].c, S.excInfo[a[0].c].first}); return a[0]; });
  addB("__cxa_get_exception_ptr", [=](State &, Inst &, std::vector<Val> &a) { return a[0]; });
  addB("__cxa_end_catch", [=](State &S, Inst &, std::vector<Val> &) { if (!S.caught.empty()) S.caught.pop_back(); return vc(0, 64); });
  auto term = [=](State &S, Inst &, std::vector<Val> &) -> Val { violate(S, "terminate", "", "std::terminate called", *S.model); throw EndPath(); };
  addB("_ZSt9terminatev", term); addB("__clang_call_terminate", term);
  auto ab = [=](State &S, Inst &, std::vector<Val> &) -> Val { violate(S, "abort", "", "abort/assert/trap reached", *S.model); throw EndPath(); };
  for (auto n : {"abort", "__assert_fail", "__cxa_pure_virtual", "_ZSt21__glibcxx_assert_failPKciS0_S0_", "__glibcxx_assert_fail", "__stack_chk_fail"}) addB(n, ab);
  addB("exit", [=](State &, Inst &, std::vector<Val> &) -> Val { throw EndPath(); });
  auto thr = [&](const char *fn, const char *ti) { std::string t = ti; addB(fn, [=](State &S, Inst &, std::vector<Val> &) -> Val { throwStd(S, t); }); };
  thr("_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"); thr("_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range");
  thr("_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"); thr("_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error");
  thr("_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"); thr("_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length");
  thr("_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"); thr("_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error");
  thr("_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call"); thr("_ZSt20__throw_system_errori", "_ZTISt12system_error");
  thr("_ZSt16__throw_bad_castv", "_ZTISt8bad_cast"); thr("_ZSt27__throw_bad_optional_accessv", "_ZTISt19bad_optional_access");
  thr("_ZSt20__throw_future_errori", "_ZTISt12future_error");
  addB("__cxa_guard_acquire", [=](State &S, Inst &, std::vector<Val> &a) { Val g = loadInt(S, a[0].c, 8); return vc(g.c == 0, 32); });
  addB("__cxa_guard_release", [=](State &S, Inst &, std::vector<Val> &a) { storeInt(S, a[0].c, vc(1, 8)); return vc(0, 32); });
  for (auto n : {"__cxa_guard_abort", "__cxa_atexit", "atexit", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "_ZSt21ios_base_library_initv", "perror", "puts", "printf", "fprintf", "putchar", "fflush"}) addB(n, [](State &, Inst &I, std::vector<Val> &) { return vc(0, I.w ? I.w : 64); });
  // std exception objects: constructors/destructors of library exception classes keep no observable state
  // ---- libm on doubles
  auto fr = [&](const char *n, int mode) { addB(n, [=](State &, Inst &, std::vector<Val> &a) { E x = toE(a[0]); return ve(mkF(Op::FROUND, x->w, x, nullptr, mode)); }); };
  for (auto sfx : {"", "f", "l"}) { std::string s = sfx; fr(("round" + s).c_str(), 0); fr(("floor" + s).c_str(), 1); fr(("ceil" + s).c_str(), 2); fr(("trunc" + s).c_str(), 3); fr(("rint" + s).c_str(), 4); fr(("nearbyint" + s).c_str(), 4); }
  for (auto sfx : {"", "f", "l"}) { addB(std::string("sqrt") + sfx, [=](State &, Inst &, std::vector<Val> &a) { E x = toE(a[0]); return ve(mkF(Op::FSQRT, x->w, x)); }); }
  for (auto nm : {"lround", "llround", "lroundf", "llroundf", "lroundl", "llroundl"}) addB(nm, [=](State &, Inst &, std::vector<Val> &a) { E x = toE(a[0]); return ve(mkF(Op::FTOSI, 64, mkF(Op::FROUND, x->w, x, nullptr, 0))); });
  for (auto nm : {"lrint", "llrint", "lrintf", "llrintf", "lrintl", "llrintl"}) addB(nm, [=](State &, Inst &, std::vector<Val> &a) { E x = toE(a[0]); return ve(mkF(Op::FTOSI, 64, mkF(Op::FROUND, x->w, x, nullptr, 4))); });
  for (int k = 0; k < 3; k++) {
    const char *sfx = k == 0 ? "f" : k == 1 ? "" : "l"; unsigned w = k == 0 ? 32 : k == 1 ? 64 : 80;
    auto rnd = [=](long double v) { return k == 0 ? (long double)(float)v : k == 1 ? (long double)(double)v : v; };
    auto mathc = [&](const char *n, long double (*f)(long double, long double)) { addB(std::string(n) + sfx, [=](State &, Inst &, std::vector<Val> &a) { E x = toE(a[0]), y = toE(a[1]); if (!isC(x) || !isC(y)) incomplete("symbolic libm"); return ve(mkConst(fpFromLD(rnd(f(fpToLD(x->k, w), fpToLD(y->k, w))), w), w)); }); };
    mathc("pow", [](long double x, long double y) { return powl(x, y); }); mathc("fmod", [](long double x, long double y) { return fmodl(x, y); });
    for (auto n : {"ldexp", "scalbn", "scalbln"}) addB(std::string(n) + sfx, [=](State &S, Inst &, std::vector<Val> &a) { s128 e = sext128(concretize(S, a[1], "ldexp"), a[1].w); E x = toE(a[0]); long double p = rnd(ldexpl(1.0L, (int)e)); if (e < -16000 || e > 16000 || p == 0 || std::isinf(p)) incomplete("ldexp"); return ve(mkF(Op::FMUL, w, x, mkConst(fpFromLD(p, w), w))); });
    addB(std::string("exp2") + sfx, [=](State &, Inst &, std::vector<Val> &a) { E x = toE(a[0]); if (!isC(x)) incomplete("symbolic libm"); return ve(mkConst(fpFromLD(rnd(exp2l(fpToLD(x->k, w))), w), w)); });
    addB(std::string("modf") + sfx, [=](State &S, Inst &, std::vector<Val> &a) { E x = toE(a[0]); E t = mkF(Op::FROUND, w, x, nullptr, 3); storeInt(S, a[1].c, ve(t)); return ve(mkF(Op::FSUB, w, x, t)); });
  }
}
static bool isExcSupport(StringRef n) {
  // constructors / destructors / what() of std exception classes
  static const char *cls[] = {"_ZNSt9exception", "_ZNSt11logic_error", "_ZNSt12out_of_range", "_ZNSt12length_error", "_ZNSt16invalid_argument", "_ZNSt13runtime_error", "_ZNSt12domain_error", "_ZNSt11range_error", "_ZNSt14overflow_error", "_ZNSt15underflow_error", "_ZNSt12system_error", "_ZNSt9bad_alloc", "_ZNSt19bad_optional_access", "_ZNSt8bad_cast"};
  for (auto c : cls) if (n.starts_with(c)) return true;
  return false;
}

// ------------------------------------------------------------------ compile IR
static Opnd mkOp(const Value *v, std::unordered_map<const Value *, int> &slots) {
  Opnd o;
  if (auto *c = dyn_cast<Constant>(v)) { o.v = constVal(c); return o; }
  if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) { o.v = vc(0, 64); return o; }
  o.slot = slots.at(v); return o;
}
static FnC *compile(Function *F) {
  auto it = fnCache.find(F); if (it != fnCache.end()) return it->second;
  auto *fc = new FnC; fc->F = F; fc->name = F->getName().str(); fnCache[F] = fc;
  std::unordered_map<const Value *, int> slots; std::unordered_map<const BasicBlock *, int> bbi;
  int n = 0;
  for (auto &a : F->args()) { slots[&a] = n; fc->args.push_back(n++); }
  int bi = 0;
  for (auto &b : *F) { bbi[&b] = bi++; for (auto &I : b) if (!I.getType()->isVoidTy()) slots[&I] = n++; }
  fc->nregs = n; fc->bbs.resize(bi);
  for (auto &b : *F) {
    BB &B = fc->bbs[bbi[&b]];
    for (auto &I : b) {
      if (auto *p = dyn_cast<PHINode>(&I)) {
        Phi ph; ph.dst = slots[p]; for (unsigned i = 0; i < p->getNumIncomingValues(); i++) ph.in.push_back({bbi[p->getIncomingBlock(i)], mkOp(p->getIncomingValue(i), slots)});
        B.phis.push_back(ph); continue;
      }
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      Inst x; x.I = &I; x.op = I.getOpcode(); x.dst = I.getType()->isVoidTy() ? -1 : slots[&I]; x.w = widthOf(I.getType()); x.ty = I.getType();
      if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
        x.ops.push_back(mkOp(g->getPointerOperand(), slots));
        for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
          if (auto *st = gi.getStructTypeOrNull()) { x.goff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue()); }
          else {
            u64 sz = DL->getTypeAllocSize(gi.getIndexedType());
            if (auto *ci = dyn_cast<ConstantInt>(gi.getOperand())) x.goff += sz * ci->getSExtValue();
            else { x.gscale.push_back({(int)x.ops.size(), sz}); x.ops.push_back(mkOp(gi.getOperand(), slots)); }
          }
        }
      } else if (auto *cb = dyn_cast<CallBase>(&I)) {
        Value *cv = cb->getCalledOperand()->stripPointerCasts();
        if (auto *al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
        for (auto &a : cb->args()) x.ops.push_back(mkOp(a.get(), slots));
        if (auto *f = dyn_cast<Function>(cv)) x.callee = f;
        else if (!isa<InlineAsm>(cv)) x.ops.push_back(mkOp(cv, slots));
        else x.builtin = -2;
        if (x.callee) {
          std::string nm = x.callee->getName().str();
          auto bt = bidx.find(nm);
          if (x.callee->isIntrinsic()) x.builtin = -3;
          else if (bt != bidx.end() && (x.callee->isDeclaration() || nm == "__clang_call_terminate")) x.builtin = bt->second;
          else if (x.callee->isDeclaration() && isExcSupport(nm)) x.builtin = -4;
        }
        if (auto *iv = dyn_cast<InvokeInst>(&I)) x.succ = {bbi[iv->getNormalDest()], bbi[iv->getUnwindDest()]};
      } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
        x.ops.push_back(mkOp(sw->getCondition(), slots)); x.succ.push_back(bbi[sw->getDefaultDest()]);
        for (auto c : sw->cases()) x.cases.push_back({c.getCaseValue()->getZExtValue(), bbi[c.getCaseSuccessor()]});
      } else if (auto *br = dyn_cast<BranchInst>(&I)) {
        if (br->isConditional()) x.ops.push_back(mkOp(br->getCondition(), slots));
        for (unsigned i = 0; i < br->getNumSuccessors(); i++) x.succ.push_back(bbi[br->getSuccessor(i)]);
      } else if (isa<LandingPadInst>(&I)) {
      } else for (auto &o : I.operands()) x.ops.push_back(mkOp(o.get(), slots));
      B.ins.push_back(std::move(x));
    }
  }
  return fc;
}

// ------------------------------------------------------------------ execution
static void enter(State &S, FnC *f, const std::vector<Val> &args, int dst) {
  if (S.st.size() > 400) incomplete("recursion depth");
  S.st.emplace_back(); Frame &fr = S.st.back(); fr.f = f; fr.regs.resize(f->nregs); fr.dst = dst;
  for (size_t i = 0; i < f->args.size() && i < args.size(); i++) fr.regs[f->args[i]] = args[i];
}
static void jump(Frame &fr, int to) {
  int from = fr.bb; fr.bb = to; fr.idx = 0;
  BB &b = fr.f->bbs[to];
  if (b.phis.empty()) return;
  std::vector<Val> tmp; tmp.reserve(b.phis.size());
  for (auto &p : b.phis) { bool ok = false; for (auto &in : p.in) if (in.first == from) { tmp.push_back(in.second.slot >= 0 ? fr.regs[in.second.slot] : in.second.v); ok = true; break; } if (!ok) { errs() << "phi?\n"; abort(); } }
  for (size_t i = 0; i < b.phis.size(); i++) fr.regs[b.phis[i].dst] = std::move(tmp[i]);
}
static void popAllocas(State &S, Frame &fr) { for (u64 a : fr.allocas) S.mem.erase(a); }

static bool doReturn(State &S, const Val &v) { // false: entry finished
  popAllocas(S, S.st.back()); S.st.pop_back();
  if (S.st.empty()) return false;
  Frame &fr = S.st.back(); Inst &I = fr.f->bbs[fr.bb].ins[fr.idx];
  if (I.dst >= 0) fr.regs[I.dst] = v;
  if (I.op == Instruction::Invoke) jump(fr, I.succ[0]); else fr.idx++;
  return true;
}
static void unwind(State &S, u64 ptr, u64 ti) {
  std::string tn = tiName.count(ti) ? tiName[ti] : "?";
  auto matchLP = [&](const LandingPadInst *lp, u64 &sel) -> int { // 0 none, 1 cleanup, 2 handler
    for (unsigned i = 0; i < lp->getNumClauses(); i++) {
      const Constant *c = lp->getClause(i);
      if (lp->isCatch(i)) {
        if (isa<ConstantPointerNull>(c)) { sel = 1; return 2; }
        auto *g = cast<GlobalVariable>(c->stripPointerCasts());
        if (derives(tn, g->getName().str())) { sel = (addrOf(g) & 0x7fffffff); return 2; }
      } else { sel = 0x7ffffff1; return 2; }
    }
    if (lp->isCleanup()) { sel = 0; return 1; } return 0;
  };
  // phase 1
  bool found = false;
  for (auto it = S.st.rbegin(); it != S.st.rend() && !found; ++it) {
    Inst &I = it->f->bbs[it->bb].ins[it->idx];
    if (I.op == Instruction::Invoke) { auto *lp = cast<InvokeInst>(I.I)->getLandingPadInst(); u64 s; if (matchLP(lp, s) == 2) found = true; }
  }
  if (!found) { violate(S, "uncaught", "", "uncaught exception " + dem(tn), *S.model); throw EndPath(); }
  while (!S.st.empty()) {
    Frame &fr = S.st.back(); Inst &I = fr.f->bbs[fr.bb].ins[fr.idx];
    if (I.op == Instruction::Invoke) {
      auto *lp = cast<InvokeInst>(I.I)->getLandingPadInst(); u64 sel = 0;
      if (matchLP(lp, sel)) {
        jump(fr, I.succ[1]);
        // the landingpad instruction is first non-phi
        Inst &L = fr.f->bbs[fr.bb].ins[fr.idx];
        if (L.op != Instruction::LandingPad) incomplete("landingpad");
        fr.regs[L.dst] = vagg({vc(ptr, 64), vc(sel, 32)}); fr.idx++;
        return;
      }
    }
    popAllocas(S, fr); S.st.pop_back();
  }
}

static Val mapVec(const std::vector<const Val *> &in, const std::function<Val(const std::vector<Val> &)> &f) {
  size_t n = in[0]->agg->size(); std::vector<Val> r;
  for (size_t i = 0; i < n; i++) { std::vector<Val> x; for (auto *p : in) x.push_back(p->agg ? (*p->agg)[i] : *p); r.push_back(f(x)); }
  return vagg(std::move(r));
}
static Val binop(State &S, unsigned op, const Val &a, const Val &b) {
  if (a.agg) return mapVec({&a, &b}, [&](const std::vector<Val> &x) { return binop(S, op, x[0], x[1]); });
  unsigned w = a.w;
  if (a.conc() && b.conc()) {
    u64 x = a.c, y = b.c;
    switch (op) {
    case Instruction::Add: return vc(x + y, w); case Instruction::Sub: return vc(x - y, w); case Instruction::Mul: return vc(x * y, w);
    case Instruction::And: return vc(x & y, w); case Instruction::Or: return vc(x | y, w); case Instruction::Xor: return vc(x ^ y, w);
    case Instruction::Shl: if (y >= w) return ve(mkUndef(w)); return vc(x << y, w);
    case Instruction::LShr: if (y >= w) return ve(mkUndef(w)); return vc(x >> y, w);
    case Instruction::AShr: if (y >= w) return ve(mkUndef(w)); return vc((u64)(sx(x, w) >> y), w);
    default: break;
    }
  }
  E x = toE(a), y = toE(b);
  switch (op) {
  case Instruction::Add: return ve(mkBin(Op::ADD, x, y)); case Instruction::Sub: return ve(mkBin(Op::SUB, x, y)); case Instruction::Mul: return ve(mkBin(Op::MUL, x, y));
  case Instruction::And: return ve(mkBin(Op::AND, x, y)); case Instruction::Or: return ve(mkBin(Op::OR, x, y)); case Instruction::Xor: return ve(mkBin(Op::XOR, x, y));
  case Instruction::Shl: return ve(mkBin(Op::SHL, x, y)); case Instruction::LShr: return ve(mkBin(Op::LSHR, x, y)); case Instruction::AShr: return ve(mkBin(Op::ASHR, x, y));
  case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
    E z = mkBin(Op::EQ, y, mkConst(0, w));
    if (decide(S, z)) { violate(S, "ub", "", "division by zero", *S.model); throw EndPath(); }
    return ve(mkBin(op == Instruction::UDiv ? Op::UDIV : op == Instruction::SDiv ? Op::SDIV : op == Instruction::URem ? Op::UREM : Op::SREM, x, y)); }
  case Instruction::FAdd: return ve(mkF(Op::FADD, w, x, y)); case Instruction::FSub: return ve(mkF(Op::FSUB, w, x, y));
  case Instruction::FMul: return ve(mkF(Op::FMUL, w, x, y)); case Instruction::FDiv: return ve(mkF(Op::FDIV, w, x, y));
  default: incomplete("binop " + std::to_string(op));
  }
}
static Val icmp(unsigned p, const Val &a, const Val &b) {
  if (a.agg) return mapVec({&a, &b}, [&](const std::vector<Val> &x) { return icmp(p, x[0], x[1]); });
  if (a.conc() && b.conc()) {
    u64 x = a.c, y = b.c; unsigned w = a.w;
    switch (p) {
    case CmpInst::ICMP_EQ: return vc(x == y, 1); case CmpInst::ICMP_NE: return vc(x != y, 1);
    case CmpInst::ICMP_ULT: return vc(x < y, 1); case CmpInst::ICMP_ULE: return vc(x <= y, 1); case CmpInst::ICMP_UGT: return vc(x > y, 1); case CmpInst::ICMP_UGE: return vc(x >= y, 1);
    case CmpInst::ICMP_SLT: return vc(sx(x, w) < sx(y, w), 1); case CmpInst::ICMP_SLE: return vc(sx(x, w) <= sx(y, w), 1); case CmpInst::ICMP_SGT: return vc(sx(x, w) > sx(y, w), 1); case CmpInst::ICMP_SGE: return vc(sx(x, w) >= sx(y, w), 1);
    }
  }
  E x = toE(a), y = toE(b);
  switch (p) {
  case CmpInst::ICMP_EQ: return ve(mkBin(Op::EQ, x, y)); case CmpInst::ICMP_NE: return ve(mkNot(mkBin(Op::EQ, x, y)));
  case CmpInst::ICMP_ULT: return ve(mkBin(Op::ULT, x, y)); case CmpInst::ICMP_ULE: return ve(mkBin(Op::ULE, x, y));
  case CmpInst::ICMP_UGT: return ve(mkBin(Op::ULT, y, x)); case CmpInst::ICMP_UGE: return ve(mkBin(Op::ULE, y, x));
  case CmpInst::ICMP_SLT: return ve(mkBin(Op::SLT, x, y)); case CmpInst::ICMP_SLE: return ve(mkBin(Op::SLE, x, y));
  case CmpInst::ICMP_SGT: return ve(mkBin(Op::SLT, y, x)); case CmpInst::ICMP_SGE: return ve(mkBin(Op::SLE, y, x));
  }
  abort();
}
static Val fcmp(unsigned p, const Val &a, const Val &b) {
  if (a.agg) return mapVec({&a, &b}, [&](const std::vector<Val> &x) { return fcmp(p, x[0], x[1]); });
  E x = toE(a), y = toE(b);
  E nan = mkBin(Op::OR, mkF(Op::FISNAN, 1, x), mkF(Op::FISNAN, 1, y));
  auto ord = [&](E c) { return ve(mkBin(Op::AND, mkNot(nan), c)); };
  auto uno = [&](E c) { return ve(mkBin(Op::OR, nan, c)); };
  E eq = mkF(Op::FEQ, 1, x, y);
  switch (p) {
  case CmpInst::FCMP_FALSE: return vc(0, 1); case CmpInst::FCMP_TRUE: return vc(1, 1);
  case CmpInst::FCMP_OEQ: return ve(eq); case CmpInst::FCMP_UNE: return ve(mkNot(eq));
  case CmpInst::FCMP_ONE: return ord(mkNot(eq)); case CmpInst::FCMP_UEQ: return uno(eq);
  case CmpInst::FCMP_OLT: return ve(mkF(Op::FLT, 1, x, y)); case CmpInst::FCMP_OLE: return ve(mkF(Op::FLE, 1, x, y));
  case CmpInst::FCMP_OGT: return ve(mkF(Op::FLT, 1, y, x)); case CmpInst::FCMP_OGE: return ve(mkF(Op::FLE, 1, y, x));
  case CmpInst::FCMP_ULT: return uno(mkF(Op::FLT, 1, x, y)); case CmpInst::FCMP_ULE: return uno(mkF(Op::FLE, 1, x, y));
  case CmpInst::FCMP_UGT: return uno(mkF(Op::FLT, 1, y, x)); case CmpInst::FCMP_UGE: return uno(mkF(Op::FLE, 1, y, x));
  case CmpInst::FCMP_ORD: return ve(mkNot(nan)); case CmpInst::FCMP_UNO: return ve(nan);
  }
  abort();
}
static void flatten(const Val &v, std::vector<E> &out) { if (v.agg) for (auto &x : *v.agg) flatten(x, out); else out.push_back(toE(v)); }
static Val bitcast(const Val &v, Type *to) {
  std::vector<E> p; flatten(v, p);
  if (to->isVectorTy()) {
    auto *vt = cast<FixedVectorType>(to); unsigned ew = widthOf(vt->getElementType());
    if (v.agg && p[0]->w == ew) return v;
    E all = nullptr; for (E x : p) all = all ? mkConcat(x, all) : x;
    std::vector<Val> r; for (unsigned i = 0; i < vt->getNumElements(); i++) r.push_back(ve(mkExtract(all, i * ew, ew)));
    return vagg(std::move(r));
  }
  if (!v.agg) return v;
  E all = nullptr; for (E x : p) all = all ? mkConcat(x, all) : x;
  return ve(all);
}
static Val castop(State &S, unsigned op, const Val &v, Type *from, Type *to) {
  if (op == Instruction::BitCast) return bitcast(v, to);
  if (v.agg) { Type *fe = from->getScalarType(), *te = to->getScalarType(); return mapVec({&v}, [&](const std::vector<Val> &x) { return castop(S, op, x[0], fe, te); }); }
  unsigned w = widthOf(to);
  switch (op) {
  case Instruction::Trunc: if (v.conc()) return vc(v.c, w); return ve(mkExtract(toE(v), 0, w));
  case Instruction::ZExt: if (v.conc() && w <= 64) return vc(v.c, w); return ve(mkZExt(toE(v), w));
  case Instruction::SExt: if (v.conc() && w <= 64) return vc((u64)sx(v.c, v.w), w); return ve(mkSExt(toE(v), w));
  case Instruction::PtrToInt: case Instruction::IntToPtr: if (v.conc()) return vc(v.c, w); { E e = toE(v); return ve(e->w == w ? e : e->w > w ? mkExtract(e, 0, w) : mkZExt(e, w)); }
  case Instruction::AddrSpaceCast: return v;
  case Instruction::FPExt: case Instruction::FPTrunc: return ve(mkF(Op::FCVT, w, toE(v)));
  case Instruction::SIToFP: return ve(mkF(Op::SITOF, w, toE(v))); case Instruction::UIToFP: return ve(mkF(Op::UITOF, w, toE(v)));
  case Instruction::FPToSI: return ve(mkF(Op::FTOSI, w, toE(v))); case Instruction::FPToUI: return ve(mkF(Op::FTOUI, w, toE(v)));
  }
  incomplete("cast");
}

static Val intrinsic(State &S, Inst &I, std::vector<Val> &a) {
  auto *f = I.callee; auto id = f->getIntrinsicID();
  auto vecmap = [&](auto fn) -> Val { if (a[0].agg) { std::vector<const Val *> in; for (auto &x : a) in.push_back(&x); return mapVec(in, fn); } return fn(a); };
  switch (id) {
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: {
    u64 p = a[1].c; if (a[1].conc() && p) { ObjP *o = findObj(S, p); if (o && (*o)->kind == OK::STACK && (*o)->base == p) { if (o->use_count() > 1) *o = std::make_shared<Obj>(**o); (*o)->s.assign((*o)->size, mkUndef(8)); } }
    return vc(0, 64); }
  case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::donothing: case Intrinsic::invariant_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::var_annotation: case Intrinsic::stackrestore: case Intrinsic::sideeffect: return vc(0, 64);
  case Intrinsic::invariant_start: case Intrinsic::stacksave: return vc(0, 64);
  case Intrinsic::assume: return vc(0, 64);
  case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::threadlocal_address: case Intrinsic::expect_with_probability: return a[0];
  case Intrinsic::is_constant: return vc(0, 1);
  case Intrinsic::objectsize: return vc(~0ull, I.w);
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 n = concretize(S, a[2], "copy size"); u64 d = concretize(S, a[0], "copy destination"), s = concretize(S, a[1], "copy source"); if (n && d == s) return vc(0, 64); if (n && id == Intrinsic::memcpy && d < s + n && s < d + n) memErr(S, "memcpy with overlapping ranges"); copyMem(S, d, s, n); return vc(0, 64); }
  case Intrinsic::memset: case Intrinsic::memset_inline: { u64 n = concretize(S, a[2], "set size"); u64 d = concretize(S, a[0], "set destination"); if (n) { E b = toE(a[1]); Obj &o = access(S, d, n, true); for (u64 i = 0; i < n; i++) setByte(o, d - o.base + i, b); } return vc(0, 64); }
  case Intrinsic::trap: case Intrinsic::debugtrap: violate(S, "trap", "", "trap reached", *S.model); throw EndPath();
  case Intrinsic::ubsantrap: {
    static const char *nm[] = {"add overflow", "builtin unreachable", "cfi", "signed-integer division overflow/zero", "dynamic type cache miss", "float cast overflow", "function type mismatch", "implicit conversion", "invalid builtin", "invalid objc cast", "load of invalid bool/enum value", "missing return", "signed multiplication overflow", "negation overflow", "nullability arg", "nullability return", "nonnull arg", "nonnull return", "out of bounds", "pointer overflow", "shift out of bounds", "signed subtraction overflow", "type mismatch", "alignment assumption", "vla bound"};
    unsigned k = (unsigned)a[0].c; violate(S, "ub", "", std::string("undefined behaviour: ") + (k < 25 ? nm[k] : "?"), *S.model); throw EndPath(); }
  case Intrinsic::eh_typeid_for: { u64 t = a[0].c; return vc(t & 0x7fffffff, 32); }
  case Intrinsic::bswap: return vecmap([&](const std::vector<Val> &x) { if (x[0].conc()) { u64 r = 0, v = x[0].c; for (unsigned i = 0; i < x[0].w / 8; i++) { r = (r << 8) | (v & 255); v >>= 8; } return vc(r, x[0].w); } E e = toE(x[0]); E r = nullptr; for (unsigned i = 0; i < e->w / 8; i++) { E b = mkExtract(e, 8 * i, 8); r = r ? mkConcat(r, b) : b; } return ve(r); });
  case Intrinsic::bitreverse: return vecmap([&](const std::vector<Val> &x) { E e = toE(x[0]); E r = nullptr; for (unsigned i = 0; i < e->w; i++) { E b = mkExtract(e, i, 1); r = r ? mkConcat(r, b) : b; } return ve(r); });
  case Intrinsic::ctpop: return vecmap([&](const std::vector<Val> &x) { E e = toE(x[0]); E r = mkConst(0, e->w); for (unsigned i = 0; i < e->w; i++) r = mkBin(Op::ADD, r, mkZExt(mkExtract(e, i, 1), e->w)); return ve(r); });
  case Intrinsic::ctlz: case Intrinsic::cttz: return vecmap([&](const std::vector<Val> &x) { E e = toE(x[0]); unsigned w = e->w; E r = mkConst(w, w); if (id == Intrinsic::ctlz) for (unsigned i = 0; i < w; i++) r = mkITE(mkExtract(e, i, 1), mkConst(w - 1 - i, w), r); else for (unsigned i = w; i-- > 0;) r = mkITE(mkExtract(e, i, 1), mkConst(i, w), r); return ve(r); });
  case Intrinsic::fshl: case Intrinsic::fshr: return vecmap([&](const std::vector<Val> &x) { unsigned w = x[0].w; E c = mkConcat(toE(x[0]), toE(x[1])); u64 s = concretize(S, x[2], "funnel shift") % w; return ve(id == Intrinsic::fshl ? mkExtract(c, w - s, w) : mkExtract(c, s, w)); });
  case Intrinsic::abs: return vecmap([&](const std::vector<Val> &x) { E e = toE(x[0]); return ve(mkITE(mkBin(Op::SLT, e, mkConst(0, e->w)), mkBin(Op::SUB, mkConst(0, e->w), e), e)); });
  case Intrinsic::smax: return vecmap([&](const std::vector<Val> &x) { E p = toE(x[0]), q = toE(x[1]); return ve(mkITE(mkBin(Op::SLT, p, q), q, p)); });
  case Intrinsic::smin: return vecmap([&](const std::vector<Val> &x) { E p = toE(x[0]), q = toE(x[1]); return ve(mkITE(mkBin(Op::SLT, p, q), p, q)); });
  case Intrinsic::umax: return vecmap([&](const std::vector<Val> &x) { E p = toE(x[0]), q = toE(x[1]); return ve(mkITE(mkBin(Op::ULT, p, q), q, p)); });
  case Intrinsic::umin: return vecmap([&](const std::vector<Val> &x) { E p = toE(x[0]), q = toE(x[1]); return ve(mkITE(mkBin(Op::ULT, p, q), p, q)); });
  case Intrinsic::usub_sat: return vecmap([&](const std::vector<Val> &x) { E p = toE(x[0]), q = toE(x[1]); return ve(mkITE(mkBin(Op::ULT, p, q), mkConst(0, p->w), mkBin(Op::SUB, p, q))); });
  case Intrinsic::uadd_sat: return vecmap([&](const std::vector<Val> &x) { E p = toE(x[0]), q = toE(x[1]); E s = mkBin(Op::ADD, p, q); return ve(mkITE(mkBin(Op::ULT, s, p), mkConst(mask128(p->w), p->w), s)); });
  case Intrinsic::uadd_with_overflow: { E p = toE(a[0]), q = toE(a[1]); E s = mkBin(Op::ADD, p, q); return vagg({ve(s), ve(mkBin(Op::ULT, s, p))}); }
  case Intrinsic::usub_with_overflow: { E p = toE(a[0]), q = toE(a[1]); return vagg({ve(mkBin(Op::SUB, p, q)), ve(mkBin(Op::ULT, p, q))}); }
  case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
    E p = toE(a[0]), q = toE(a[1]); unsigned w = p->w; Op o = id == Intrinsic::sadd_with_overflow ? Op::ADD : Op::SUB;
    E s = mkBin(o, p, q), l = mkBin(o, mkSExt(p, w + 1), mkSExt(q, w + 1)); return vagg({ve(s), ve(mkNot(mkBin(Op::EQ, mkSExt(s, w + 1), l)))}); }
  case Intrinsic::umul_with_overflow: { E p = toE(a[0]), q = toE(a[1]); unsigned w = p->w; E l = mkBin(Op::MUL, mkZExt(p, 2 * w), mkZExt(q, 2 * w)); return vagg({ve(mkExtract(l, 0, w)), ve(mkNot(mkBin(Op::EQ, mkExtract(l, w, w), mkConst(0, w))))}); }
  case Intrinsic::smul_with_overflow: { E p = toE(a[0]), q = toE(a[1]); unsigned w = p->w; E l = mkBin(Op::MUL, mkSExt(p, 2 * w), mkSExt(q, 2 * w)); E s = mkExtract(l, 0, w); return vagg({ve(s), ve(mkNot(mkBin(Op::EQ, mkSExt(s, 2 * w), l)))}); }
  case Intrinsic::round: return ve(mkF(Op::FROUND, a[0].w, toE(a[0]), nullptr, 0));
  case Intrinsic::floor: return ve(mkF(Op::FROUND, a[0].w, toE(a[0]), nullptr, 1));
  case Intrinsic::ceil: return ve(mkF(Op::FROUND, a[0].w, toE(a[0]), nullptr, 2));
  case Intrinsic::trunc: return ve(mkF(Op::FROUND, a[0].w, toE(a[0]), nullptr, 3));
  case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return ve(mkF(Op::FROUND, a[0].w, toE(a[0]), nullptr, 4));
  case Intrinsic::lround: case Intrinsic::llround: return ve(mkF(Op::FTOSI, I.w, mkF(Op::FROUND, a[0].w, toE(a[0]), nullptr, 0)));
  case Intrinsic::fabs: { E e = toE(a[0]); return ve(mkConcat(mkConst(0, 1), mkExtract(e, 0, e->w - 1))); }
  case Intrinsic::copysign: { E e = toE(a[0]), s = toE(a[1]); return ve(mkConcat(mkExtract(s, s->w - 1, 1), mkExtract(e, 0, e->w - 1))); }
  case Intrinsic::sqrt: return ve(mkF(Op::FSQRT, a[0].w, toE(a[0])));
  case Intrinsic::maxnum: { E p = toE(a[0]), q = toE(a[1]); return ve(mkITE(mkF(Op::FLT, 1, p, q), q, p)); }
  case Intrinsic::minnum: { E p = toE(a[0]), q = toE(a[1]); return ve(mkITE(mkF(Op::FLT, 1, q, p), q, p)); }
  case Intrinsic::fmuladd: return ve(mkF(Op::FADD, a[0].w, mkF(Op::FMUL, a[0].w, toE(a[0]), toE(a[1])), toE(a[2])));
  case Intrinsic::ldexp: { s128 n = sext128(concretize(S, a[1], "ldexp"), a[1].w); double p = ldexp(1.0, (int)n); return ve(mkF(Op::FMUL, a[0].w, toE(a[0]), mkConst(fpFromLD(p, a[0].w), a[0].w))); }
  case Intrinsic::vector_reduce_add: { E r = toE((*a[0].agg)[0]); for (size_t i = 1; i < a[0].agg->size(); i++) r = mkBin(Op::ADD, r, toE((*a[0].agg)[i])); return ve(r); }
  case Intrinsic::vector_reduce_or: { E r = toE((*a[0].agg)[0]); for (size_t i = 1; i < a[0].agg->size(); i++) r = mkBin(Op::OR, r, toE((*a[0].agg)[i])); return ve(r); }
  case Intrinsic::vector_reduce_and: { E r = toE((*a[0].agg)[0]); for (size_t i = 1; i < a[0].agg->size(); i++) r = mkBin(Op::AND, r, toE((*a[0].agg)[i])); return ve(r); }
  default: incomplete("intrinsic " + f->getName().str());
  }
}

static bool callFn(State &S, Inst &I, Function *f, std::vector<Val> &args) { // true: frame entered (pc must not advance)
  if (f->isDeclaration()) incomplete("external function " + dem(f->getName()));
  enter(S, compile(f), args, I.dst); return true;
}

static bool step(State &S) { // false: path finished
  Frame &fr = S.st.back();
  Inst &I = fr.f->bbs[fr.bb].ins[fr.idx];
  I.done = true;
  auto get = [&](int i) -> const Val & { const Opnd &o = I.ops[i]; return o.slot >= 0 ? fr.regs[o.slot] : o.v; };
  auto set = [&](Val v) { fr.regs[I.dst] = std::move(v); fr.idx++; };
  switch (I.op) {
  case Instruction::Ret: { Val v; if (!I.ops.empty()) v = get(0); return doReturn(S, v); }
  case Instruction::Br: if (I.ops.empty()) jump(fr, I.succ[0]); else { const Val &c = get(0); bool t = c.conc() ? c.c : decide(S, c.e); jump(fr, I.succ[t ? 0 : 1]); } return true;
  case Instruction::Switch: {
    const Val &c = get(0);
    if (c.conc()) { int to = I.succ[0]; for (auto &k : I.cases) if (k.first == c.c) { to = k.second; break; } jump(fr, to); return true; }
    for (auto &k : I.cases) { E eq = mkBin(Op::EQ, toE(c), mkConst(k.first, c.w)); if (isC(eq) && !eq->k) continue; if (decide(S, eq)) { jump(fr, k.second); return true; } }
    jump(fr, I.succ[0]); return true; }
  case Instruction::Unreachable: violate(S, "ub", "", "unreachable code reached", *S.model); throw EndPath();
  case Instruction::Alloca: {
    auto *ai = cast<AllocaInst>(I.I); u64 n = concretize(S, get(0), "alloca"); u64 sz = DL->getTypeAllocSize(ai->getAllocatedType()) * n;
    u64 a = allocObj(S, sz, OK::STACK, ai->getAlign().value(), false, ai->getName().str()); fr.allocas.push_back(a); set(vc(a, 64)); return true; }
  case Instruction::Load: { u64 a = concretize(S, get(0), "load address"); set(load(S, a, I.ty)); return true; }
  case Instruction::Store: { u64 a = concretize(S, get(1), "store address"); store(S, a, get(0), I.I->getOperand(0)->getType()); fr.idx++; return true; }
  case Instruction::GetElementPtr: {
    const Val &b = get(0);
    if (b.agg) incomplete("vector gep");
    bool allc = b.conc(); for (auto &g : I.gscale) allc &= get(g.first).conc();
    if (allc) { u64 r = b.c + I.goff; for (auto &g : I.gscale) { const Val &x = get(g.first); r += (u64)sx(x.c, x.w) * g.second; } set(vc(r, 64)); }
    else { E r = mkBin(Op::ADD, toE(b), mkConst(I.goff, 64)); for (auto &g : I.gscale) { E x = mkSExt(toE(get(g.first)), 64); r = mkBin(Op::ADD, r, mkBin(Op::MUL, x, mkConst(g.second, 64))); } set(ve(r)); }
    return true; }
  case Instruction::ICmp: set(icmp(cast<ICmpInst>(I.I)->getPredicate(), get(0), get(1))); return true;
  case Instruction::FCmp: set(fcmp(cast<FCmpInst>(I.I)->getPredicate(), get(0), get(1))); return true;
  case Instruction::Select: {
    const Val &c = get(0);
    if (c.agg) { const Val &a = get(1), &b = get(2); set(mapVec({&c, &a, &b}, [&](const std::vector<Val> &x) { if (x[0].conc()) return x[0].c ? x[1] : x[2]; return ve(mkITE(toE(x[0]), toE(x[1]), toE(x[2]))); })); return true; }
    if (c.conc()) { set(c.c ? get(1) : get(2)); return true; }
    const Val &a = get(1), &b = get(2);
    if (a.agg || I.ty->isPointerTy()) { bool t = decide(S, c.e); set(t ? get(1) : get(2)); return true; }
    set(ve(mkITE(c.e, toE(a), toE(b)))); return true; }
  case Instruction::ExtractValue: { auto *ev = cast<ExtractValueInst>(I.I); const Val *v = &get(0); for (unsigned i : ev->indices()) v = &(*v->agg)[i]; set(Val(*v)); return true; }
  case Instruction::InsertValue: {
    auto *iv = cast<InsertValueInst>(I.I); Val r = get(0); Val *v = &r;
    for (unsigned i : iv->indices()) { v->agg = std::make_shared<std::vector<Val>>(*v->agg); v = &(*v->agg)[i]; }
    *v = get(1); set(r); return true; }
  case Instruction::ExtractElement: { u64 i = concretize(S, get(1), "vector index"); set(Val((*get(0).agg)[i])); return true; }
  case Instruction::InsertElement: { u64 i = concretize(S, get(2), "vector index"); Val r = get(0); r.agg = std::make_shared<std::vector<Val>>(*r.agg); (*r.agg)[i] = get(1); set(r); return true; }
  case Instruction::ShuffleVector: {
    auto *sv = cast<ShuffleVectorInst>(I.I); std::vector<Val> r; const auto &a = *get(0).agg, &b = *get(1).agg;
    for (int k : sv->getShuffleMask()) { if (k < 0) r.push_back(zeroOf(sv->getType()->getElementType(), true)); else r.push_back((size_t)k < a.size() ? a[k] : b[k - a.size()]); }
    set(vagg(std::move(r))); return true; }
  case Instruction::FNeg: { const Val &v = get(0); E e = toE(v); set(ve(mkConcat(mkNot(mkExtract(e, e->w - 1, 1)), mkExtract(e, 0, e->w - 1)))); return true; }
  case Instruction::Freeze: { Val v = get(0); if (v.e && v.e->undef) { std::unordered_map<E, E> m; v = ve(substUndef(v.e, undefZero, m)); } set(v); return true; }
  case Instruction::AtomicRMW: {
    auto *ar = cast<AtomicRMWInst>(I.I); u64 a = concretize(S, get(0), "address"); Val o = load(S, a, I.ty); Val n; 
    switch (ar->getOperation()) { case AtomicRMWInst::Add: n = binop(S, Instruction::Add, o, get(1)); break; case AtomicRMWInst::Sub: n = binop(S, Instruction::Sub, o, get(1)); break; case AtomicRMWInst::Xchg: n = get(1); break; case AtomicRMWInst::Or: n = binop(S, Instruction::Or, o, get(1)); break; case AtomicRMWInst::And: n = binop(S, Instruction::And, o, get(1)); break; default: incomplete("atomicrmw"); }
    store(S, a, n, I.ty); set(o); return true; }
  case Instruction::AtomicCmpXchg: { u64 a = concretize(S, get(0), "address"); Type *t = I.I->getOperand(1)->getType(); Val o = load(S, a, t); E eq = mkBin(Op::EQ, toE(o), toE(get(1))); bool ok = decide(S, eq); if (ok) store(S, a, get(2), t); set(vagg({o, vc(ok, 1)})); return true; }
  case Instruction::Fence: fr.idx++; return true;
  case Instruction::Resume: {
    Val v = get(0); u64 p = (*v.agg)[0].c; u64 ti = S.excInfo[p].first;
    popAllocas(S, S.st.back()); S.st.pop_back(); if (S.st.empty()) { violate(S, "uncaught", "", "uncaught exception", *S.model); throw EndPath(); }
    unwind(S, p, ti); return true; }
  case Instruction::LandingPad: incomplete("landingpad fallthrough");
  case Instruction::Call: case Instruction::Invoke: {
    std::vector<Val> args; auto *cb = cast<CallBase>(I.I); unsigned na = cb->arg_size();
    args.reserve(na); for (unsigned i = 0; i < na; i++) args.push_back(get(i));
    Val r; 
    try {
      if (I.builtin >= 0) r = bfns[I.builtin](S, I, args);
      else if (I.builtin == -3) r = intrinsic(S, I, args);
      else if (I.builtin == -2) { if (cb->getType()->isVoidTy()) r = vc(0, 64); else incomplete("inline asm"); }
      else if (I.builtin == -4) { // std exception ctor/dtor/what
        if (I.callee->getName().contains("what")) { r = vc(0, 64); incomplete("std exception what()"); } r = vc(0, I.w ? I.w : 64); }
      else {
        Function *f = I.callee;
        if (!f) {
          u64 t = concretize(S, get(na), "function pointer"); auto it = faddr.find(t);
          if (it == faddr.end()) { violate(S, "memory", "", "call through invalid function pointer", *S.model); throw EndPath(); }
          f = it->second;
          if (f->isDeclaration()) { auto bt = bidx.find(f->getName().str()); if (bt != bidx.end()) { r = bfns[bt->second](S, I, args); goto done; } if (isExcSupport(f->getName())) { r = vc(0, I.w ? I.w : 64); goto done; } }
        }
        // byval arguments are copied
        for (unsigned i = 0; i < na; i++) if (cb->isByValArgument(i)) { u64 sz = DL->getTypeAllocSize(cb->getParamByValType(i)); u64 n = allocObj(S, sz, OK::STACK); copyMem(S, n, args[i].c, sz); args[i] = vc(n, 64); }
        callFn(S, I, f, args); return true;
      }
    } catch (ExcThrow &e) { unwind(S, e.ptr, e.ti); return true; }
  done:
    Frame &f2 = S.st.back();
    if (I.dst >= 0) { f2.regs[I.dst] = r; if (!r.agg && I.w && r.w != I.w) { if (r.conc()) f2.regs[I.dst] = vc(r.c, I.w); else f2.regs[I.dst] = ve(r.e->w > I.w ? mkExtract(r.e, 0, I.w) : mkZExt(r.e, I.w)); } }
    if (I.op == Instruction::Invoke) jump(f2, I.succ[0]); else f2.idx++;
    if (S.switchTo >= 0) {
      unsigned k = (unsigned)S.switchTo; S.switchTo = -1;
      if (k != S.cur) {
        S.fib[S.cur] = {std::move(S.st), std::move(S.caught)}; S.st = std::move(S.fib[k].first); S.caught = std::move(S.fib[k].second); S.cur = k;
        if (S.st.empty()) incomplete("switch to a finished fiber");
      }
    }
    return true; }
  default:
    if (I.I->isCast()) { set(castop(S, I.op, get(0), I.I->getOperand(0)->getType(), I.ty)); return true; }
    if (I.I->isBinaryOp()) { set(binop(S, I.op, get(0), get(1))); return true; }
    incomplete(std::string("instruction ") + I.I->getOpcodeName());
  }
}

static void jsonStr(raw_ostream &o, const std::string &s) { o << '"'; for (unsigned char c : s) { if (c == '"' || c == '\\') o << '\\' << c; else if (c < 32) { o << "\\u00" << "0123456789abcdef"[c >> 4] << "0123456789abcdef"[c & 15]; } else o << c; } o << '"'; }
static std::string hex128(u128 v) { char b[40]; if (v >> 64) snprintf(b, 40, "%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v); else snprintf(b, 40, "%llx", (unsigned long long)v); return b; }

int main(int argc, char **argv) {
  std::string bc, entry, out; 
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&](const char *k) -> const char * { size_t n = strlen(k); return a.compare(0, n, k) == 0 ? a.c_str() + n : nullptr; };
    if (auto v = val("--entry=")) entry = v; else if (auto v = val("--out=")) out = v; else if (auto v = val("--max-time=")) maxTime = atof(v);
    else if (auto v = val("--max-paths=")) maxPaths = strtoull(v, 0, 10); else if (auto v = val("--query-timeout=")) g_queryTimeoutMs = atoi(v);
    else if (auto v = val("--max-violations=")) maxViol = atoi(v); else if (auto v = val("--max-path-instr=")) maxPathInstr = strtoull(v, 0, 10);
    else bc = a;
  }
  T0 = std::chrono::steady_clock::now();
  LLVMContext ctx; SMDiagnostic err;
  auto mod = parseIRFile(bc, err, ctx);
  if (!mod) { err.print("vsym", errs()); return 3; }
  M = mod.get(); DL = &M->getDataLayout();
  solverInit(); setupBuiltins();
  // addresses
  u64 fa = 0x10000;
  for (auto &f : *M) { gaddr[&f] = fa; faddr[fa] = &f; fa += 16; }
  State S0; S0.next = 0x30000000;
  std::vector<std::pair<GlobalVariable *, ObjP>> inits;
  for (auto &g : M->globals()) {
    u64 sz = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 0;
    if (!g.hasInitializer()) sz = std::max<u64>(sz, 512);
    u64 a = allocObj(S0, sz, OK::GLOBAL, g.getAlign() ? g.getAlign()->value() : 16, true, g.getName().str());
    gaddr[&g] = a; ObjP o = S0.mem[a];
    if (g.getName().starts_with("_ZTI")) { tiAddr[g.getName().str()] = a; tiName[a] = g.getName().str(); }
    if (g.hasInitializer()) inits.push_back({&g, o});
    if (g.isConstant() && g.hasInitializer()) { o->ro = true; S0.mem.erase(a); roGlobals[a] = o; }
  }
  for (auto &p : inits) initBytes(p.first->getInitializer(), *p.second, 0);
  S0.next = 0x40000000;
  Function *F = M->getFunction(entry);
  if (!F) { errs() << "no entry " << entry << "\n"; return 3; }
  auto run = [&](std::unique_ptr<State> s0) {
    work.clear(); work.push_back(std::move(s0));
    while (!work.empty()) {
      auto sp = std::move(work.back()); work.pop_back();
      State &S = *sp;
      try {
        u64 k = 0;
        while (step(S)) {
          nInstr++;
          if ((++k & 0xfff) == 0) { if (elapsed() > maxTime) { incompletes["time limit"]++; work.clear(); return (std::unique_ptr<State>)nullptr; } }
          if (++S.instrs > maxPathInstr) incomplete("path length limit");
        }
        nPaths++;
        // a model of this completed path: the driver replays it natively to validate the encoding
        if (witnesses.size() < maxWit && (nPaths & (nPaths - 1)) == 0 && S.model) {
          witnesses.emplace_back();
          for (E e : S.symLog) witnesses.back().push_back({g_vars[(size_t)e->k].name, {e->w, evalE(e, *S.model)}});
        }
        if (nPaths > maxPaths) { incompletes["path limit"]++; work.clear(); return (std::unique_ptr<State>)nullptr; }
        if (work.empty()) return sp;
      } catch (EndPath &) { nPaths++; }
      if (elapsed() > maxTime && !work.empty()) { incompletes["time limit"]++; work.clear(); break; }
      if (violations.size() >= maxViol) { work.clear(); break; }
    }
    return (std::unique_ptr<State>)nullptr;
  };
  // global constructors (concrete)
  auto st = std::make_unique<State>(S0);
  if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto &o : ca->operands()) {
    auto *f = dyn_cast<Function>(cast<Constant>(o)->getAggregateElement(1u)); if (!f) continue;
    enter(*st, compile(f), {}, -1); auto r = run(std::move(st)); if (!r) { errs() << "global constructor failed: " << f->getName() << "\n"; for (auto &p : incompletes) errs() << "  " << p.first << "\n"; for (auto &v : violations) errs() << "  " << v.kind << " " << v.msg << "\n"; return 3; } st = std::move(r); st->st.clear();
  }
  nPaths = 0; witnesses.clear();
  enter(*st, compile(F), {}, -1); run(std::move(st));

  // functions of the code under test that were executed symbolically (via debug info, inlining included)
  std::set<std::string> fns; std::map<std::string, std::set<unsigned>> lines; std::set<const DISubprogram *> seen;
  for (auto &fc : fnCache) for (auto &b : fc.second->bbs) for (auto &I : b.ins) if (I.done) {
    for (const DILocation *L = I.I->getDebugLoc().get(); L; L = L->getInlinedAt()) {
      lines[L->getFilename().str()].insert(L->getLine());
      if (auto *sp = L->getScope()->getSubprogram()) if (seen.insert(sp).second) fns.insert(dem(sp->getLinkageName().empty() ? sp->getName() : sp->getLinkageName()) + "\t" + sp->getFilename().str());
    }
  }
  std::error_code ec; raw_fd_ostream *fo = out.empty() ? nullptr : new raw_fd_ostream(out, ec); raw_ostream &o = fo ? (raw_ostream &)*fo : outs();
  o << "{\"entry\":"; jsonStr(o, entry);
  o << ",\"paths\":" << nPaths << ",\"forks\":" << nForks << ",\"killed\":" << nKilled << ",\"instructions\":" << nInstr << ",\"memory_checks\":" << nMemChecks;
  o << ",\"queries\":" << g_ss.queries << ",\"sat\":" << g_ss.sat << ",\"unsat\":" << g_ss.unsat << ",\"unknown\":" << g_ss.unknown << ",\"cached\":" << g_ss.cached;
  o << ",\"solver_s\":" << format("%.3f", g_ss.secs) << ",\"max_query_s\":" << format("%.3f", g_ss.maxq) << ",\"wall_s\":" << format("%.3f", elapsed()) << ",\"symbols\":" << g_vars.size();
  o << ",\"incomplete\":{"; bool first = true; for (auto &p : incompletes) { if (!first) o << ","; first = false; jsonStr(o, p.first); o << ":" << p.second; } o << "}";
  o << ",\"reached\":{"; first = true; for (auto &p : reached) { if (!first) o << ","; first = false; jsonStr(o, p.first); o << ":" << p.second; } o << "}";
  o << ",\"asserts\":{"; first = true; for (auto &p : asserts) { if (!first) o << ","; first = false; jsonStr(o, p.first); o << ":[" << p.second.conc << "," << p.second.sym << "," << p.second.fail << "]"; } o << "}";
  o << ",\"functions\":["; first = true; for (auto &f : fns) { if (!first) o << ","; first = false; jsonStr(o, f); } o << "]";
  o << ",\"lines\":{"; first = true; for (auto &p : lines) { if (!first) o << ","; first = false; jsonStr(o, p.first); o << ":" << p.second.size(); } o << "}";
  o << ",\"violations\":["; first = true;
  for (auto &v : violations) {
    if (!first) o << ","; first = false;
    o << "{\"kind\":"; jsonStr(o, v.kind); o << ",\"id\":"; jsonStr(o, v.id); o << ",\"msg\":"; jsonStr(o, v.msg); o << ",\"where\":"; jsonStr(o, v.where);
    o << ",\"stack\":["; bool f2 = true; for (auto &s : v.stack) { if (!f2) o << ","; f2 = false; jsonStr(o, s); } o << "],\"trail\":["; f2 = true; for (auto &s : v.trail) { if (!f2) o << ","; f2 = false; jsonStr(o, s); }
    o << "],\"values\":["; f2 = true; for (auto &p : v.vals) { if (!f2) o << ","; f2 = false; o << "["; jsonStr(o, p.first); o << "," << p.second.first << ",\"" << hex128(p.second.second) << "\"]"; } o << "]}";
  }
  o << "],\"witnesses\":["; first = true;
  for (auto &w : witnesses) { if (!first) o << ","; first = false; o << "["; bool f2 = true; for (auto &p : w) { if (!f2) o << ","; f2 = false; o << "["; jsonStr(o, p.first); o << "," << p.second.first << ",\"" << hex128(p.second.second) << "\"]"; } o << "]"; }
  o << "]}\n"; o.flush();
  if (fo) { fo->close(); }
  if (forkTrace) { std::vector<std::pair<u64, std::string>> v; for (auto &p : forkAt) v.push_back({p.second, p.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 25; i++) errs() << v[i].first << " " << v[i].second << "\n"; }
  _exit(violations.empty() ? (incompletes.empty() ? 0 : 2) : 1);
}
