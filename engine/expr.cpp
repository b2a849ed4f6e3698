#include "expr.h"
#include <algorithm>
#include <unordered_set>

std::vector<VarInfo> g_vars;

namespace {
struct H {
  size_t operator()(const Expr *e) const {
    uint64_t h = (uint64_t)e->op * 0x9E3779B97F4A7C15ull + e->w * 0x85EBCA6B;
    auto mix = [&](uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
    mix((uint64_t)e->a); mix((uint64_t)e->b); mix((uint64_t)e->c); mix((uint64_t)e->k); mix((uint64_t)(e->k >> 64));
    return h;
  }
};
struct Q {
  bool operator()(const Expr *x, const Expr *y) const {
    return x->op == y->op && x->w == y->w && x->a == y->a && x->b == y->b && x->c == y->c && x->k == y->k;
  }
};
std::unordered_set<const Expr *, H, Q> table;
uint32_t nextId = 1;
struct Arena {
  std::vector<Expr *> blocks; size_t pos = 4096;
  Expr *get() { if (pos == 4096) { blocks.push_back((Expr *)malloc(sizeof(Expr) * 4096)); pos = 0; } return &blocks.back()[pos++]; }
} arena;
} // namespace

static E intern(Op op, unsigned w, E a, E b, E c, u128 k) {
  Expr t{op, (uint16_t)w, false, 0, a, b, c, k};
  auto it = table.find(&t);
  if (it != table.end()) return *it;
  Expr *n = arena.get();
  *n = t;
  n->undef = op == Op::UNDEF || (a && a->undef) || (b && b->undef) || (c && c->undef);
  n->id = nextId++;
  table.insert(n);
  return n;
}

E mkConst(u128 v, unsigned w) {
  return intern(Op::CONST, w, nullptr, nullptr, nullptr, v & mask128(w));
}
static std::unordered_map<std::string, E> varTab;
E mkVar(const std::string &name, unsigned w) {
  auto it = varTab.find(name);
  if (it != varTab.end() && it->second->w == w) return it->second;
  g_vars.push_back({name, w});
  E e = intern(Op::VAR, w, nullptr, nullptr, nullptr, g_vars.size() - 1);
  varTab[name] = e;
  return e;
}
E mkUndef(unsigned w) { return intern(Op::UNDEF, w, nullptr, nullptr, nullptr, 0); }

E mkExtract(E e, unsigned lo, unsigned w) {
  if (lo == 0 && w == e->w) return e;
  if (lo + w > e->w || w == 0) { fprintf(stderr, "bad extract %u+%u of %u\n", lo, w, e->w); abort(); }
  switch (e->op) {
  case Op::CONST: return mkConst(e->k >> lo, w);
  case Op::UNDEF: return mkUndef(w);
  case Op::EXTRACT: return mkExtract(e->a, lo + (unsigned)e->k, w);
  case Op::CONCAT: {
    unsigned lw = e->b->w;
    if (lo >= lw) return mkExtract(e->a, lo - lw, w);
    if (lo + w <= lw) return mkExtract(e->b, lo, w);
    return mkConcat(mkExtract(e->a, 0, lo + w - lw), mkExtract(e->b, lo, lw - lo));
  }
  case Op::SEXT: {
    unsigned iw = e->a->w;
    if (lo + w <= iw) return mkExtract(e->a, lo, w);
    if (lo < iw) return mkSExt(mkExtract(e->a, lo, iw - lo), w);
    return mkSExt(mkExtract(e->a, iw - 1, 1), w);
  }
  case Op::AND: case Op::OR: case Op::XOR:
    return mkBin(e->op, mkExtract(e->a, lo, w), mkExtract(e->b, lo, w));
  case Op::ITE:
    return mkITE(e->a, mkExtract(e->b, lo, w), mkExtract(e->c, lo, w));
  case Op::ADD: case Op::SUB: case Op::MUL:
    if (lo == 0) return mkBin(e->op, mkExtract(e->a, 0, w), mkExtract(e->b, 0, w));
    break;
  default: break;
  }
  return intern(Op::EXTRACT, w, e, nullptr, nullptr, lo);
}

E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (hi->op == Op::CONCAT) return mkConcat(hi->a, mkConcat(hi->b, lo));
  E first = lo, rest = nullptr;
  if (lo->op == Op::CONCAT) { first = lo->a; rest = lo->b; }
  E merged = nullptr;
  if (isC(hi) && isC(first) && hi->w + first->w <= 128)
    merged = mkConst((hi->k << first->w) | first->k, hi->w + first->w);
  else if (hi->op == Op::UNDEF && first->op == Op::UNDEF)
    merged = mkUndef(hi->w + first->w);
  else {
    E hb = hi->op == Op::EXTRACT ? hi->a : hi; unsigned hlo = hi->op == Op::EXTRACT ? (unsigned)hi->k : 0;
    E fb = first->op == Op::EXTRACT ? first->a : first; unsigned flo = first->op == Op::EXTRACT ? (unsigned)first->k : 0;
    if (hb == fb && hlo == flo + first->w) merged = mkExtract(hb, flo, hi->w + first->w);
    else if (hi->op == Op::ITE && first->op == Op::ITE && hi->a == first->a)
      merged = mkITE(hi->a, mkConcat(hi->b, first->b), mkConcat(hi->c, first->c));
    else if ((hi->op == Op::AND || hi->op == Op::OR || hi->op == Op::XOR) && hi->op == first->op) {
      // re-fuse bitwise operations that were split by byte extraction
      E x = mkConcat(hi->a, first->a), y = mkConcat(hi->b, first->b);
      if (x->op != Op::CONCAT && y->op != Op::CONCAT) merged = mkBin(hi->op, x, y);
      else {
        E x2 = mkConcat(hi->a, first->b), y2 = mkConcat(hi->b, first->a);
        if (x2->op != Op::CONCAT && y2->op != Op::CONCAT) merged = mkBin(hi->op, x2, y2);
      }
    } else if (hi->op == Op::EXTRACT && first->op == Op::ADD && hb->op == Op::ADD) {
      // extract(a+b, n, w) ++ (trunc(a)+trunc(b)) -> wider extract when hb's low part is `first`
      if (hlo == first->w && mkExtract(hb, 0, first->w) == first) merged = mkExtract(hb, 0, hi->w + first->w);
    } else if (hi->op == Op::EXTRACT && first->op == hb->op && (hb->op == Op::SUB || hb->op == Op::MUL)) {
      if (hlo == first->w && mkExtract(hb, 0, first->w) == first) merged = mkExtract(hb, 0, hi->w + first->w);
    } else if (hi->op == Op::SEXT && first->op != Op::CONST) {
      // sext(sign bit of x) ++ x -> sext(x)
      E sb = hi->a;
      if (sb->w == 1 && sb == mkExtract(first, first->w - 1, 1)) merged = mkSExt(first, w - (rest ? rest->w : 0));
    }
  }
  if (merged) return rest ? mkConcat(merged, rest) : merged;
  return intern(Op::CONCAT, w, hi, lo, nullptr, 0);
}

E mkZExt(E e, unsigned w) {
  if (e->w == w) return e;
  if (w - e->w > 128) { return mkConcat(mkConst(0, 128), mkZExt(e, w - 128)); }
  return mkConcat(mkConst(0, w - e->w), e);
}
E mkSExt(E e, unsigned w) {
  if (e->w == w) return e;
  if (isC(e)) return mkConst((u128)sext128(e->k, e->w), w);
  if (e->op == Op::UNDEF) return mkUndef(w);
  if (e->op == Op::CONCAT && isC(e->a) && !((e->a->k >> (e->a->w - 1)) & 1)) return mkZExt(e, w);
  if (e->op == Op::SEXT) return mkSExt(e->a, w);
  if (e->op == Op::ITE && (isC(e->b) || isC(e->c))) return mkITE(e->a, mkSExt(e->b, w), mkSExt(e->c, w));
  return intern(Op::SEXT, w, e, nullptr, nullptr, 0);
}

static E binConst(Op op, u128 x, u128 y, unsigned w) {
  u128 m = mask128(w);
  switch (op) {
  case Op::ADD: return mkConst(x + y, w);
  case Op::SUB: return mkConst(x - y, w);
  case Op::MUL: return mkConst(x * y, w);
  case Op::UDIV: return y ? mkConst(x / y, w) : mkConst(m, w);
  case Op::UREM: return y ? mkConst(x % y, w) : mkConst(x, w);
  case Op::SDIV: { s128 a = sext128(x, w), b = sext128(y, w); if (b == 0) return mkConst(a < 0 ? 1 : m, w); if (b == -1) return mkConst((u128)0 - (u128)a, w); return mkConst((u128)(a / b), w); }
  case Op::SREM: { s128 a = sext128(x, w), b = sext128(y, w); if (b == 0) return mkConst(x, w); if (b == -1) return mkConst(0, w); return mkConst((u128)(a % b), w); }
  case Op::SHL: return mkConst(y >= w ? 0 : x << (unsigned)y, w);
  case Op::LSHR: return mkConst(y >= w ? 0 : x >> (unsigned)y, w);
  case Op::ASHR: { s128 a = sext128(x, w); unsigned s = y >= w ? w - 1 : (unsigned)y; return mkConst((u128)(a >> s), w); }
  case Op::AND: return mkConst(x & y, w);
  case Op::OR: return mkConst(x | y, w);
  case Op::XOR: return mkConst(x ^ y, w);
  case Op::EQ: return mkConst(x == y, 1);
  case Op::ULT: return mkConst(x < y, 1);
  case Op::ULE: return mkConst(x <= y, 1);
  case Op::SLT: return mkConst(sext128(x, w) < sext128(y, w), 1);
  case Op::SLE: return mkConst(sext128(x, w) <= sext128(y, w), 1);
  default: abort();
  }
}

// segment boundaries (low to high) of an expression as seen by bitwise ops
static void cuts(E e, unsigned base, std::vector<unsigned> &out) {
  if (e->op == Op::CONCAT) { cuts(e->b, base, out); out.push_back(base + e->b->w); cuts(e->a, base + e->b->w, out); }
  else if (e->op == Op::CONST) {
    for (unsigned i = 1; i < e->w; i++) if (((e->k >> i) & 1) != ((e->k >> (i - 1)) & 1)) out.push_back(base + i);
  }
}
static bool segmented(E e) {
  if (e->op == Op::CONCAT) return true;
  return false;
}

static E bitwise(Op op, E a, E b) {
  unsigned w = a->w;
  if (isC(a)) std::swap(a, b);
  if (isC(a)) return binConst(op, a->k, b->k, w);
  if (a == b) { if (op == Op::XOR) return mkConst(0, w); return a; }
  if (isC(b)) {
    u128 m = mask128(w);
    if (op == Op::AND) { if (b->k == 0) return b; if (b->k == m) return a; }
    if (op == Op::OR) { if (b->k == 0) return a; if (b->k == m) return b; }
    if (op == Op::XOR) { if (b->k == 0) return a; if (a->op == Op::XOR && isC(a->b)) return mkBin(Op::XOR, a->a, mkConst(a->b->k ^ b->k, w)); }
    if (w == 1 && op == Op::XOR) { // not
      if (a->op == Op::ITE) return mkITE(a->a, mkNot(a->b), mkNot(a->c));
    }
    if (op == Op::AND && a->op == Op::AND && isC(a->b)) return mkBin(Op::AND, a->a, mkConst(a->b->k & b->k, w));
    if (a->op == Op::ITE && (isC(a->b) || isC(a->c))) return mkITE(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
    if (a->op == Op::UNDEF && op == Op::XOR) return a;
  }
  if (a->op == Op::UNDEF && b->op == Op::UNDEF) return a;
  bool split = segmented(a) || segmented(b) || (isC(b) && op != Op::XOR);
  if (isC(b) && op == Op::XOR && !segmented(a)) split = false;
  if (split && w > 1) {
    std::vector<unsigned> cs; cuts(a, 0, cs); cuts(b, 0, cs);
    std::sort(cs.begin(), cs.end()); cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
    if (!cs.empty() && cs.size() <= 40) {
      cs.push_back(w);
      // only split when some segment is trivially simplified
      E r = nullptr; unsigned lo = 0; bool good = true; unsigned opaque = 0;
      std::vector<E> parts;
      for (unsigned hi : cs) {
        E x = mkExtract(a, lo, hi - lo), y = mkExtract(b, lo, hi - lo);
        E p = bitwise(op, x, y);
        if (p->op == op) opaque++;
        parts.push_back(p); lo = hi;
      }
      if (opaque == parts.size() && opaque > 1) good = false;
      if (good) {
        for (E p : parts) r = r ? mkConcat(p, r) : p;
        return r;
      }
    }
  }
  if (!isC(b) && a->id > b->id) std::swap(a, b);
  if (isC(a)) std::swap(a, b);
  if (w == 1) {
    // x & !x , x | !x
    auto neg = [](E x, E y) { return x->op == Op::XOR && isC(x->b) && x->b->k == 1 && x->a == y; };
    if (neg(a, b) || neg(b, a)) { if (op == Op::AND) return mkFalse(); return mkTrue(); }
  }
  return intern(op, w, a, b, nullptr, 0);
}

E mkNot(E a) { return mkBin(Op::XOR, a, mkConst(mask128(a->w), a->w)); }

static E mkEq(E a, E b) {
  unsigned w = a->w;
  if (a == b && !a->undef) return mkTrue();
  if (isC(a)) std::swap(a, b);
  if (isC(a)) return mkConst(a->k == b->k, 1);
  if (w == 1) {
    if (isC(b)) return b->k ? a : mkNot(a);
    return mkNot(mkBin(Op::XOR, a, b));
  }
  if (isC(b)) {
    if (a->op == Op::CONCAT) {
      unsigned lw = a->b->w;
      if (lw <= 128 && a->a->w <= 128) {
        E bh = mkConst(b->k >> lw, a->a->w), bl = mkConst(b->k, lw);
        E h = mkEq(a->a, bh);
        if (isC(h)) return h->k ? mkEq(a->b, bl) : h;
        E l = mkEq(a->b, bl);
        if (isC(l)) return l->k ? h : l;
        // keep conjunction piecewise
        return mkBin(Op::AND, h, l);
      }
    }
    if (a->op == Op::ITE) {
      E x = mkEq(a->b, b), y = mkEq(a->c, b);
      if (isC(x) || isC(y)) return mkITE(a->a, x, y);
    }
    if (a->op == Op::SEXT) {
      unsigned iw = a->a->w;
      u128 t = b->k & mask128(iw);
      if (((u128)sext128(t, iw) & mask128(w)) != b->k) return mkFalse();
      return mkEq(a->a, mkConst(t, iw));
    }
    if (a->op == Op::ADD && isC(a->b)) return mkEq(a->a, mkConst(b->k - a->b->k, w));
    if (a->op == Op::XOR && isC(a->b)) return mkEq(a->a, mkConst(b->k ^ a->b->k, w));
  } else if (a->op == Op::CONCAT || b->op == Op::CONCAT) {
    std::vector<unsigned> cs; 
    std::function<void(E, unsigned)> cc = [&](E e, unsigned base) { if (e->op == Op::CONCAT) { cc(e->b, base); cs.push_back(base + e->b->w); cc(e->a, base + e->b->w); } };
    cc(a, 0); cc(b, 0);
    std::sort(cs.begin(), cs.end()); cs.erase(std::unique(cs.begin(), cs.end()), cs.end()); cs.push_back(w);
    if (cs.size() <= 64) {
      E r = mkTrue(); unsigned lo = 0; unsigned triv = 0;
      for (unsigned hi : cs) { E p = mkEq(mkExtract(a, lo, hi - lo), mkExtract(b, lo, hi - lo)); if (isC(p)) triv++; r = mkBin(Op::AND, r, p); lo = hi; }
      if (triv || isC(r)) return r;
    }
  }
  if (!isC(b) && a->id > b->id) std::swap(a, b);
  return intern(Op::EQ, 1, a, b, nullptr, 0);
}

E mkBin(Op op, E a, E b) {
  unsigned w = a->w;
  if (a->w != b->w) { fprintf(stderr, "width mismatch op %d: %u %u\n", (int)op, a->w, b->w); abort(); }
  if (isC(a) && isC(b) && w <= 128) return binConst(op, a->k, b->k, w);
  switch (op) {
  case Op::AND: case Op::OR: case Op::XOR: return bitwise(op, a, b);
  case Op::EQ: return mkEq(a, b);
  case Op::ADD:
    if (isC(a)) std::swap(a, b);
    if (isC(b)) {
      if (b->k == 0) return a;
      if (a->op == Op::ADD && isC(a->b)) return mkBin(Op::ADD, a->a, mkConst(a->b->k + b->k, w));
      if (a->op == Op::ITE && isC(a->b) && isC(a->c)) return mkITE(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
    } else if (a->id > b->id) std::swap(a, b);
    if (w == 1) return mkBin(Op::XOR, a, b);
    break;
  case Op::SUB:
    if (a == b && !a->undef) return mkConst(0, w);
    if (isC(b)) return mkBin(Op::ADD, a, mkConst((u128)0 - b->k, w));
    if (a->op == Op::ADD && isC(a->b) && a->a == b) return a->b;
    if (b->op == Op::ADD && isC(b->b) && b->a == a) return mkConst((u128)0 - b->b->k, w);
    break;
  case Op::MUL:
    if (isC(a)) std::swap(a, b);
    if (isC(b)) {
      if (b->k == 0) return b;
      if (b->k == 1) return a;
      if ((b->k & (b->k - 1)) == 0) { unsigned s = 0; while (!((b->k >> s) & 1)) s++; return mkBin(Op::SHL, a, mkConst(s, w)); }
    } else if (a->id > b->id) std::swap(a, b);
    break;
  case Op::UDIV:
    if (isC(b) && b->k == 1) return a;
    if (isC(b) && b->k && (b->k & (b->k - 1)) == 0) { unsigned s = 0; while (!((b->k >> s) & 1)) s++; return mkBin(Op::LSHR, a, mkConst(s, w)); }
    break;
  case Op::UREM:
    if (isC(b) && b->k && (b->k & (b->k - 1)) == 0) return mkBin(Op::AND, a, mkConst(b->k - 1, w));
    break;
  case Op::SHL: case Op::LSHR: case Op::ASHR:
    if (isC(b)) {
      if (b->k == 0) return a;
      unsigned s = b->k >= w ? w : (unsigned)b->k;
      if (op == Op::ASHR) {
        if (s >= w) s = w - 1;
        return mkSExt(mkExtract(a, s, w - s), w);
      }
      if (s >= w) return mkConst(0, w);
      if (op == Op::SHL) return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
      return mkZExt(mkExtract(a, s, w - s), w);
    }
    if (isC(a) && a->k == 0) return a;
    break;
  case Op::ULT:
    if (a == b && !a->undef) return mkFalse();
    if (isC(b) && b->k == 0) return mkFalse();
    if (isC(b) && b->k == 1) return mkEq(a, mkConst(0, w));
    if (isC(a) && a->k == mask128(w)) return mkFalse();
    if (isC(a) && a->k == 0) return mkNot(mkEq(b, a));
    if (a->op == Op::CONCAT && isC(a->a) && a->a->k == 0) {
      unsigned lw = a->b->w;
      if (isC(b)) { if ((b->k >> lw) != 0) return mkTrue(); return mkBin(op, a->b, mkConst(b->k, lw)); }
      if (b->op == Op::CONCAT && isC(b->a) && b->a->k == 0 && b->b->w == lw) return mkBin(op, a->b, b->b);
    }
    if (b->op == Op::CONCAT && isC(b->a) && b->a->k == 0 && isC(a)) {
      unsigned lw = b->b->w;
      if ((a->k >> lw) != 0) return mkFalse();
      return mkBin(op, mkConst(a->k, lw), b->b);
    }
    break;
  case Op::ULE: return mkNot(mkBin(Op::ULT, b, a));
  case Op::SLT:
    if (a == b && !a->undef) return mkFalse();
    // both known non-negative -> ULT
    if (w > 1) {
      auto nn = [&](E e) { if (isC(e)) return !((e->k >> (w - 1)) & 1); return e->op == Op::CONCAT && isC(e->a) && !((e->a->k >> (e->a->w - 1)) & 1); };
      if (nn(a) && nn(b)) return mkBin(Op::ULT, a, b);
      if (isC(b) && b->k == 0) return mkExtract(a, w - 1, 1);
      if (nn(a) && isC(b)) return mkFalse(); // b negative
      if (nn(b) && isC(a)) return mkTrue();
    }
    break;
  case Op::SLE: return mkNot(mkBin(Op::SLT, b, a));
  default: break;
  }
  if (op == Op::EQ || op == Op::ULT || op == Op::ULE || op == Op::SLT || op == Op::SLE) {
    if (isC(b) && a->op == Op::ITE && (isC(a->b) || isC(a->c))) return mkITE(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
    if (isC(a) && b->op == Op::ITE && (isC(b->b) || isC(b->c))) return mkITE(b->a, mkBin(op, a, b->b), mkBin(op, a, b->c));
    return intern(op, 1, a, b, nullptr, 0);
  }
  return intern(op, w, a, b, nullptr, 0);
}

E mkITE(E c, E a, E b) {
  if (isC(c)) return c->k ? a : b;
  if (a == b) return a;
  if (a->w == 1) {
    if (isC(a) && isC(b)) return a->k ? c : mkNot(c);
    if (isC(a)) return a->k ? mkBin(Op::OR, c, b) : mkBin(Op::AND, mkNot(c), b);
    if (isC(b)) return b->k ? mkBin(Op::OR, mkNot(c), a) : mkBin(Op::AND, c, a);
  }
  if (c->op == Op::XOR && isC(c->b) && c->b->k == 1) return mkITE(c->a, b, a);
  if (a->op == Op::ITE && a->a == c) return mkITE(c, a->b, b);
  if (b->op == Op::ITE && b->a == c) return mkITE(c, a, b->c);
  // common high / low parts
  if (a->op == Op::CONCAT && b->op == Op::CONCAT && a->b->w == b->b->w) {
    if (a->b == b->b) return mkConcat(mkITE(c, a->a, b->a), a->b);
    if (a->a == b->a) return mkConcat(a->a, mkITE(c, a->b, b->b));
  }
  // zero-extended arms: keep the zero part outside
  auto lz = [](E e) -> unsigned {
    if (e->op == Op::CONST) { unsigned n = 0; while (n < e->w && !((e->k >> (e->w - 1 - n)) & 1)) n++; return n; }
    if (e->op == Op::CONCAT && isC(e->a) && e->a->k == 0) return e->a->w;
    return 0u; };
  unsigned z = std::min(lz(a), lz(b));
  if (z >= a->w) z = a->w - 1;
  if (z > 0) return mkConcat(mkConst(0, z), mkITE(c, mkExtract(a, 0, a->w - z), mkExtract(b, 0, b->w - z)));
  return intern(Op::ITE, a->w, c, a, b, 0);
}

// ---------------------------------------------------------------- floating point
long double fpToLD(u128 v, unsigned w) {
  if (w == 32) { uint32_t x = (uint32_t)v; float f; memcpy(&f, &x, 4); return f; }
  if (w == 64) { uint64_t x = (uint64_t)v; double f; memcpy(&f, &x, 8); return f; }
  uint64_t frac = (uint64_t)(v & mask128(63)); unsigned ex = (unsigned)((v >> 63) & 0x7fff); unsigned s = (unsigned)((v >> 78) & 1);
  unsigned char b[16] = {0};
  uint64_t man = frac | (ex ? (1ull << 63) : 0);
  memcpy(b, &man, 8); uint16_t se = (uint16_t)(ex | (s << 15)); memcpy(b + 8, &se, 2);
  long double d; memcpy(&d, b, 16); return d;
}
u128 fpFromLD(long double d, unsigned w) {
  if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; }
  if (w == 64) { double f = (double)d; uint64_t x; memcpy(&x, &f, 8); return x; }
  unsigned char b[16] = {0}; memcpy(b, &d, 10);
  uint64_t man; uint16_t se; memcpy(&man, b, 8); memcpy(&se, b + 8, 2);
  return ((u128)(se >> 15) << 78) | ((u128)(se & 0x7fff) << 63) | (man & ~(1ull << 63));
}
template <class T> static T fop(Op op, T a, T b) {
  switch (op) { case Op::FADD: return a + b; case Op::FSUB: return a - b; case Op::FMUL: return a * b; case Op::FDIV: return a / b; default: abort(); }
}
u128 fpBin(Op op, unsigned w, u128 a, u128 b) {
  if (w == 32) { float x = (float)fpToLD(a, 32), y = (float)fpToLD(b, 32); volatile float r = fop<float>(op, x, y); return fpFromLD(r, 32); }
  if (w == 64) { double x = (double)fpToLD(a, 64), y = (double)fpToLD(b, 64); volatile double r = fop<double>(op, x, y); return fpFromLD(r, 64); }
  return fpFromLD(fop<long double>(op, fpToLD(a, w), fpToLD(b, w)), w);
}
static long double roundMode(long double x, int mode) {
  switch (mode) { case 0: return roundl(x); case 1: return floorl(x); case 2: return ceill(x); case 3: return truncl(x); default: return rintl(x); }
}
static u128 fpToInt(long double x, unsigned w, bool sgn) {
  if (x != x) return 0;
  if (sgn) { if (x >= -ldexpl(1, w - 1) - 1 && x < ldexpl(1, w - 1)) return (u128)(s128)x & mask128(w); return (u128)1 << (w - 1); }
  if (x > -1 && x < ldexpl(1, w)) return (u128)x & mask128(w);
  return mask128(w);
}
static u128 fconst(Op op, unsigned w, E a, E b, u128 k) {
  switch (op) {
  case Op::FADD: case Op::FSUB: case Op::FMUL: case Op::FDIV: return fpBin(op, w, a->k, b->k);
  case Op::FEQ: return fpToLD(a->k, a->w) == fpToLD(b->k, b->w);
  case Op::FLT: return fpToLD(a->k, a->w) < fpToLD(b->k, b->w);
  case Op::FLE: return fpToLD(a->k, a->w) <= fpToLD(b->k, b->w);
  case Op::FISNAN: return std::isnan(fpToLD(a->k, a->w));
  case Op::FTOSI: return fpToInt(fpToLD(a->k, a->w), w, true);
  case Op::FTOUI: return fpToInt(fpToLD(a->k, a->w), w, false);
  case Op::SITOF: { int64_t v = (int64_t)sext128(a->k, a->w); if (w == 32) { float f = (float)v; return fpFromLD(f, 32); } if (w == 64) { double f = (double)v; return fpFromLD(f, 64); } return fpFromLD((long double)v, w); }
  case Op::UITOF: { uint64_t v = (uint64_t)a->k; if (w == 32) { float f = (float)v; return fpFromLD(f, 32); } if (w == 64) { double f = (double)v; return fpFromLD(f, 64); } return fpFromLD((long double)v, w); }
  case Op::FCVT: return fpFromLD(fpToLD(a->k, a->w), w);
  case Op::FROUND: return fpFromLD(roundMode(fpToLD(a->k, a->w), (int)k), w);
  case Op::FSQRT: if (w == 64) return fpFromLD(sqrt((double)fpToLD(a->k, 64)), 64); if (w == 32) return fpFromLD(sqrtf((float)fpToLD(a->k, 32)), 32); return fpFromLD(sqrtl(fpToLD(a->k, w)), w);
  default: abort();
  }
}
// Exact scaled integers: e == x * 2^s with x an n-bit integer (signed or not) that the format holds
// exactly, so the floating-point operations below are exact and reduce to integer operations.
struct Scaled { E x; bool sgn; int s; unsigned n; };
static unsigned mant(unsigned w) { return w == 32 ? 24 : w == 64 ? 53 : 64; }
static bool pow2c(E e, int &ex) {
  if (!isC(e)) return false;
  long double d = fpToLD(e->k, e->w); if (!(d > 0) || d > 1e300L) return false;
  if (frexpl(d, &ex) != 0.5L) return false;
  ex--; return true;
}
static bool scaled(E e, Scaled &r) {
  switch (e->op) {
  case Op::SITOF: {
    E a = e->a; r.s = 0; r.sgn = true;
    if (a->op == Op::SEXT) a = a->a;
    else if (a->op == Op::CONCAT && isC(a->a) && a->a->k == 0) { a = a->b; r.sgn = false; }
    r.x = a; r.n = a->w; return (r.sgn ? r.n - 1 : r.n) <= mant(e->w); }
  case Op::UITOF: {
    E a = e->a; if (a->op == Op::CONCAT && isC(a->a) && a->a->k == 0) a = a->b;
    r.s = 0; r.sgn = false; r.x = a; r.n = a->w; return r.n <= mant(e->w); }
  case Op::FMUL: { int ex; if (!pow2c(e->b, ex) || !scaled(e->a, r)) return false; r.s += ex; return r.s > -100 && r.s < 100; }
  case Op::FCVT: return scaled(e->a, r) && (r.sgn ? r.n - 1 : r.n) <= mant(e->w);
  default: return false;
  }
}
static E widen(const Scaled &s, unsigned w) { return s.sgn ? mkSExt(s.x, w) : mkZExt(s.x, w); }
E mkF(Op op, unsigned w, E a, E b, u128 k) {
  if (isC(a) && (!b || isC(b))) return mkConst(fconst(op, w, a, b, k), w);
  Scaled sa, sb; int ex, ey;
  switch (op) {
  case Op::FMUL: {
    E x = a, c = b; if (isC(x)) std::swap(x, c);
    if (pow2c(c, ex)) {
      if (ex == 0 && scaled(x, sa)) return x;
      if (x->op == Op::FMUL && pow2c(x->b, ey) && scaled(x->a, sa) && ex + ey > -90 && ex + ey < 90)
        return ex + ey == 0 ? x->a : mkF(Op::FMUL, w, x->a, mkConst(fpFromLD(ldexpl(1, ex + ey), w), w));
    }
    break; }
  case Op::FROUND: if (scaled(a, sa) && sa.s >= 0) return a; break;
  case Op::FTOSI: case Op::FTOUI: if (scaled(a, sa) && sa.s == 0) {
    if (op == Op::FTOSI && (sa.sgn ? sa.n : sa.n + 1) <= w) return widen(sa, w);
    if (op == Op::FTOUI && !sa.sgn && sa.n <= w) return widen(sa, w); }
    break;
  case Op::FISNAN: if (scaled(a, sa)) return mkFalse(); break;
  case Op::FEQ: case Op::FLT: case Op::FLE: {
    bool A = scaled(a, sa), B = scaled(b, sb);
    if (A && B && sa.s == sb.s) {
      unsigned W = std::max(sa.n, sb.n) + 2; return mkBin(op == Op::FEQ ? Op::EQ : op == Op::FLT ? Op::SLT : Op::SLE, widen(sa, W), widen(sb, W));
    }
    if ((A && isC(b)) || (B && isC(a))) {
      Scaled &sv = A ? sa : sb; E cc = A ? b : a; long double t = fpToLD(cc->k, cc->w);
      if (t != t) return mkFalse();
      if (std::isinf(t)) { if (op == Op::FEQ) return mkFalse(); return (t > 0) == A ? mkTrue() : mkFalse(); }
      t = ldexpl(t, -sv.s); unsigned W = sv.n + 2; long double lim = ldexpl(1, sv.n + 1) - 1;
      if (op == Op::FEQ) { if (t != floorl(t) || t > lim || t < -lim) return mkFalse(); return mkBin(Op::EQ, widen(sv, W), mkConst((u128)(s128)t, W)); }
      bool lt = op == Op::FLT;
      if (A) { long double q = lt ? ceill(t) : floorl(t); if (q > lim) return mkTrue(); if (q < -lim) return mkFalse();   // x < q / x <= q
        return mkBin(lt ? Op::SLT : Op::SLE, widen(sv, W), mkConst((u128)(s128)q, W)); }
      long double q = lt ? floorl(t) : ceill(t); if (q > lim) return mkFalse(); if (q < -lim) return mkTrue();             // q < x / q <= x
      return mkBin(lt ? Op::SLT : Op::SLE, mkConst((u128)(s128)q, W), widen(sv, W));
    }
    break; }
  default: break;
  }
  if (op == Op::FDIV && isC(b)) {
    // division by a power of two whose reciprocal is representable == multiplication by the reciprocal
    long double d = fpToLD(b->k, w); int ex; long double m = frexpl(d, &ex);
    if (m == 0.5L && ex > -100 && ex < 100) return mkF(Op::FMUL, w, a, mkConst(fpFromLD(1.0L / d, w), w));
  }
  if (op == Op::FCVT && w == a->w) return a;
  if (op == Op::FCVT && a->op == Op::FCVT && a->w > a->a->w && w == a->a->w) return a->a; // widen then narrow back
  if (op == Op::FMUL && isC(a)) std::swap(a, b);
  return intern(op, w, a, b, nullptr, k);
}

// ---------------------------------------------------------------- evaluation
u128 evalE(E root, const Model &m) {
  if (isC(root)) return root->k;
  auto it0 = m.cache.find(root);
  if (it0 != m.cache.end()) return it0->second;
  std::vector<E> st{root};
  auto get = [&](E e, u128 &v) -> bool { if (isC(e)) { v = e->k; return true; } auto it = m.cache.find(e); if (it == m.cache.end()) return false; v = it->second; return true; };
  while (!st.empty()) {
    E e = st.back();
    u128 tmp; if (get(e, tmp)) { st.pop_back(); continue; }
    u128 x = 0, y = 0, z = 0; bool ok = true;
    if (e->a && !get(e->a, x)) { st.push_back(e->a); ok = false; }
    if (e->b && !get(e->b, y)) { st.push_back(e->b); ok = false; }
    if (e->c && !get(e->c, z)) { st.push_back(e->c); ok = false; }
    if (!ok) continue;
    u128 r = 0;
    switch (e->op) {
    case Op::VAR: { auto it = m.val.find((uint32_t)e->k); r = it == m.val.end() ? 0 : it->second; break; }
    case Op::UNDEF: r = 0; break;
    case Op::EXTRACT: r = x >> (unsigned)e->k; break;
    case Op::CONCAT: r = (e->b->w >= 128 ? 0 : x << e->b->w) | y; break;
    case Op::SEXT: r = (u128)sext128(x, e->a->w); break;
    case Op::ITE: r = x ? y : z; break;
    case Op::FADD: case Op::FSUB: case Op::FMUL: case Op::FDIV: case Op::FEQ: case Op::FLT: case Op::FLE: case Op::FISNAN: case Op::FTOSI: case Op::FTOUI: case Op::SITOF: case Op::UITOF: case Op::FCVT: case Op::FROUND: case Op::FSQRT: {
      E ca = mkConst(x, e->a->w), cb = e->b ? mkConst(y, e->b->w) : nullptr;
      r = fconst(e->op, e->w, ca, cb, e->k); break; }
    default: r = binConst(e->op, x, y, e->a->w)->k; break;
    }
    m.cache[e] = r & mask128(e->w);
    st.pop_back();
  }
  return m.cache[root];
}

static std::unordered_map<E, std::vector<uint32_t>> varsMemo;
const std::vector<uint32_t> &varsOf(E root) {
  auto it = varsMemo.find(root);
  if (it != varsMemo.end()) return it->second;
  // iterative DFS with a visited set (no sub-result memo, only the root is memoised)
  std::unordered_set<E> seen; std::vector<E> st{root}; std::vector<uint32_t> out;
  while (!st.empty()) {
    E e = st.back(); st.pop_back();
    if (!e || !seen.insert(e).second) continue;
    if (e->op == Op::VAR) { out.push_back((uint32_t)e->k); continue; }
    auto mi = e == root ? varsMemo.end() : varsMemo.find(e);
    if (mi != varsMemo.end()) { out.insert(out.end(), mi->second.begin(), mi->second.end()); continue; }
    st.push_back(e->a); st.push_back(e->b); st.push_back(e->c);
  }
  std::sort(out.begin(), out.end()); out.erase(std::unique(out.begin(), out.end()), out.end());
  return varsMemo[root] = out;
}

std::string showE(E e, int d) {
  static const char *nm[] = {"C", "V", "undef", "ext", "cat", "sext", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "eq", "ult", "ule", "slt", "sle", "ite", "fadd", "fsub", "fmul", "fdiv", "feq", "flt", "fle", "fnan", "ftosi", "ftoui", "sitof", "uitof", "fcvt", "fround", "fsqrt"};
  if (!e) return "-";
  char buf[64];
  if (e->op == Op::CONST) { snprintf(buf, 64, "0x%llx:%u", (unsigned long long)e->k, e->w); return buf; }
  if (e->op == Op::VAR) return g_vars[(size_t)e->k].name;
  if (d == 0) return "..";
  std::string s = std::string("(") + nm[(int)e->op];
  snprintf(buf, 64, ":%u", e->w); s += buf;
  if (e->op == Op::EXTRACT) { snprintf(buf, 64, "@%u", (unsigned)e->k); s += buf; }
  for (E x : {e->a, e->b, e->c}) if (x) s += " " + showE(x, d - 1);
  return s + ")";
}
