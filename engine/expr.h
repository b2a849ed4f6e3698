// Hash-consed bit-vector / IEEE expression DAG with local simplification.
#pragma once
#include <cstdint>
#include <vector>
#include <string>
#include <unordered_map>
#include <memory>
#include <functional>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <cstring>

typedef unsigned __int128 u128;
typedef __int128 s128;

enum class Op : uint8_t {
  CONST, VAR, UNDEF, EXTRACT, CONCAT, SEXT, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM,
  SHL, LSHR, ASHR, AND, OR, XOR, EQ, ULT, ULE, SLT, SLE, ITE,
  FADD, FSUB, FMUL, FDIV, FEQ, FLT, FLE, FISNAN, FTOSI, FTOUI, SITOF, UITOF, FCVT, FROUND, FSQRT
};

struct Expr {
  Op op; uint16_t w; bool undef; uint32_t id;
  const Expr *a, *b, *c;
  u128 k;          // CONST value; EXTRACT lo; VAR index; FROUND mode
};
typedef const Expr *E;

inline u128 mask128(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline s128 sext128(u128 v, unsigned w) { if (w >= 128) return (s128)v; u128 m = (u128)1 << (w - 1); return (s128)(((v & mask128(w)) ^ m) - m); }

struct VarInfo { std::string name; unsigned w; };
extern std::vector<VarInfo> g_vars;

E mkConst(u128 v, unsigned w);
E mkVar(const std::string &name, unsigned w);
E mkUndef(unsigned w);
E mkExtract(E e, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZExt(E e, unsigned w);
E mkSExt(E e, unsigned w);
E mkBin(Op op, E a, E b);
E mkITE(E c, E a, E b);
E mkNot(E a); // bool
inline E mkAnd1(E a, E b) { return mkBin(Op::AND, a, b); }
E mkF(Op op, unsigned w, E a, E b = nullptr, u128 k = 0);
inline E mkTrue() { return mkConst(1, 1); }
inline E mkFalse() { return mkConst(0, 1); }
inline bool isC(E e) { return e->op == Op::CONST; }

struct Model {
  std::unordered_map<uint32_t, u128> val;          // var index -> value
  mutable std::unordered_map<E, u128> cache;
};
u128 evalE(E e, const Model &m);
const std::vector<uint32_t> &varsOf(E e);
std::string showE(E e, int depth = 6);

// concrete FP helpers on bit patterns: width 32, 64, 79 (x87 extended without the explicit integer bit)
u128 fpBin(Op op, unsigned w, u128 a, u128 b);
long double fpToLD(u128 v, unsigned w);
u128 fpFromLD(long double d, unsigned w);
