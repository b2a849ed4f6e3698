"""Harnesses over the header-only packing library (P properties)."""
from .driver import TU, Entry
from .libtab import CLASSES, DEFAULTS

PRE = '''#include "vs.h"
#include <vrtgen/packing.hpp>
#include <vrtgen/types.hpp>
#include <cmath>
using namespace vrtgen::packing;
// reference layout: reads/writes `n` bits starting `off` bits into a big-endian image
static inline uint64_t img_get(const uint8_t *p, unsigned off, unsigned n) {
  unsigned w = off / 32 * 4, sz = (off % 32 + n > 32) ? 8 : 4; uint64_t v = be(p + w, sz);
  return bits(v, sz * 8 - 1 - off % 32, n);
}
static inline void img_set(uint8_t *p, unsigned off, unsigned n, uint64_t x) {
  unsigned w = off / 32 * 4, sz = (off % 32 + n > 32) ? 8 : 4; uint64_t v = be(p + w, sz), m = (n >= 64 ? ~0ull : (1ull << n) - 1);
  unsigned sh = sz * 8 - off % 32 - n; v = (v & ~(m << sh)) | ((x & m) << sh);
  for (unsigned i = 0; i < sz; i++) p[w + i] = (uint8_t)(v >> (8 * (sz - 1 - i)));
}
static inline int64_t sx(uint64_t v, unsigned n) { return n >= 64 ? (int64_t)v : (int64_t)(v << (64 - n)) >> (64 - n); }
'''


def ident(c): return c.replace('::', '_')
def api_bits(w): return 8 if w <= 8 else 16 if w <= 16 else 32 if w <= 32 else 64
def uty(w): return 'uint%d_t' % api_bits(w)
def sty(w): return 'int%d_t' % api_bits(w)


def raw(f, expr):
    """C++ expression: the field's stored bits for the API value `expr`."""
    n, off, w, k, a = f
    return {'b': '(uint64_t)(%s)', 'u': '(uint64_t)(%s)', 'e': '(uint64_t)(%s)', 'm1': '((uint64_t)(%s) - 1)', 's': '(uint64_t)(int64_t)(%s)'}[k] % expr


def sym_full(f, v):
    """declares API value v: every value of the parameter type"""
    n, off, w, k, a = f
    if k == 'b': return 'bool %s = vs_bool("%s");' % (v, n)
    if k in ('u', 'm1'): return '%s %s = vs_u%d("%s");' % (uty(w), v, api_bits(w), n)
    if k == 's': return '%s %s = (%s)vs_u%d("%s");' % (sty(w), v, sty(w), api_bits(w), n)
    if k == 'e': return 'auto %s = (%s)vs_sym("%s", %d);' % (v, a, n, w)
    lo, hi = rng(f)
    return 'double %s = vs_f64("%s"); vs_assume(%s >= %s && %s <= %s);' % (v, n, v, lo, v, hi)


def rng(f):
    """representable range of a fixed-point field (largest/smallest value that rounds into it)"""
    n, off, w, k, r = f
    if k == 'ufx': return '0.0', repr((2**w - 1) / 2**r)
    if w == 64: return repr(-float(2**43)), repr(float(2**43) - 2**-9)
    return repr(-(2**(w - 1)) / 2**r), repr((2**(w - 1) - 1) / 2**r)


def in_range(f, v):
    n, off, w, k, a = f
    if k == 'u' and w < api_bits(w): return '(uint64_t)%s < (1ull << %d)' % (v, w)
    if k == 'm1': return '(uint64_t)%s >= 1 && (uint64_t)%s <= (1ull << %d)' % (v, v, w)
    return 'true'


def P01(chk):
    """isolation and read-back through the API"""
    for c, (size, fs) in CLASSES.items():
        o = [PRE, 'extern "C" void e_%s() {\n  %s c; vs_buf in(%d, "in"); c.unpack_from(in.data());' % (ident(c), c, size)]
        for i, f in enumerate(fs):
            o.append('  auto g%d = c.%s();' % (i, f[0]))
        o.append('  int64_t which = vs_pick("which", 0, %d);\n  switch (which) {' % (len(fs) - 1))
        for i, f in enumerate(fs):
            o.append('  case %d: { %s c.%s(v);' % (i, sym_full(f, 'v'), f[0]))
            if f[3] not in ('fx', 'ufx'):
                o.append('    if (%s) vs_assert(c.%s() == v, "%s.%s.readback");' % (in_range(f, 'v'), f[0], c, f[0]))
            o.append('    vs_reach("%s.%s"); break; }' % (c, f[0]))
        o.append('  }')
        for i, f in enumerate(fs):
            o.append('  if (which != %d) vs_assert(c.%s() == g%d, "%s.%s.untouched");' % (i, f[0], i, c, f[0]))
        o.append('}')
        chk.add(TU('p01_' + ident(c), '\n'.join(o), [Entry('e_' + ident(c), 150, expect_reach=['%s.%s' % (c, f[0]) for f in fs])]))


def P02(chk):
    """wire layout against the reference table"""
    for c, (size, fs) in CLASSES.items():
        o = [PRE]
        # decode direction: every field of any image
        o.append('extern "C" void r_%s() {\n  %s c; vs_buf in(%d, "in"); c.unpack_from(in.data()); const %s &k = c;' % (ident(c), c, size, c))
        for n, off, w, k, a in fs:
            g = 'img_get(in.data(), %d, %d)' % (off, w)
            cond = {'b': 'k.%s() == (%s != 0)', 'u': '(uint64_t)k.%s() == %s', 'e': '(uint64_t)k.%s() == %s', 's': '(int64_t)k.%s() == sx(%s, %d)' % ('%s', '%s', w),
                    'm1': '(uint64_t)k.%s() == ((%s + 1) & %s)' % ('%s', '%s', hex(2**api_bits(w) - 1)), 'fx': None, 'ufx': None}[k]
            if cond:
                o.append('  vs_assert(%s, "%s.%s.decode");' % (cond % (n, g), c, n))
            elif w == 64:
                o.append('  { int64_t i = sx(%s, 64); if (i > -(1ll << 52) && i < (1ll << 52)) vs_assert(k.%s() == (double)i / %d.0, "%s.%s.decode"); }' % (g, n, 2**a, c, n))
            else:
                o.append('  vs_assert(k.%s() == (double)%s / %d.0, "%s.%s.decode");' % (n, ('sx(%s, %d)' % (g, w)) if k == 'fx' else '(int64_t)' + g, 2**a, c, n))
        o.append('  vs_assert(k.size() == %d, "%s.size");\n  vs_reach("end"); }' % (size, c))
        # encode direction: any image, one field replaced
        o.append('extern "C" void w_%s() {\n  %s c; vs_buf in(%d, "in"); c.unpack_from(in.data()); vs_buf ex(%d), out(%d); std::memcpy(ex.data(), in.data(), %d);\n  switch (vs_pick("which", 0, %d)) {' %
                 (ident(c), c, size, size, size, size, len(fs) - 1))
        for i, f in enumerate(fs):
            n, off, w, k, a = f
            if k in ('fx', 'ufx'):
                bw = w if w < 64 else 53
                o.append('  case %d: { uint64_t r = vs_sym("%s", %d); int64_t i = %s; c.%s((double)i / %d.0); img_set(ex.data(), %d, %d, (uint64_t)i);' %
                         (i, n, bw, 'sx(r, %d)' % bw if k == 'fx' else '(int64_t)r', n, 2**a, off, w))
            else:
                o.append('  case %d: { %s vs_assume(%s); c.%s(v); img_set(ex.data(), %d, %d, %s);' % (i, sym_full(f, 'v'), in_range(f, 'v'), n, off, w, raw(f, 'v')))
            o.append('    c.pack_into(out.data()); vs_assert(std::memcmp(out.data(), ex.data(), %d) == 0, "%s.%s.encode"); vs_reach("%s"); break; }' % (size, c, n, n))
        o.append('  }\n}')
        chk.add(TU('p02_' + ident(c), '\n'.join(o), [Entry('r_' + ident(c), 150), Entry('w_' + ident(c), 200, expect_reach=[f[0] for f in fs])]))


def P03(chk):
    """fixed point: nearest representable value, no overflow in the representable range"""
    for c, (size, fs) in CLASSES.items():
        ff = [f for f in fs if f[3] in ('fx', 'ufx')]
        if not ff: continue
        o, ents = [PRE], []
        for f in ff:
            n, off, w, k, r = f
            lo, hi = rng(f)
            o.append('extern "C" void e_%s_%s() { %s c; double d = vs_f64("d"); vs_assume(d >= %s && d <= %s); c.%s(d);' % (ident(c), n, c, lo, hi, n))
            o.append('  vs_buf out(%d); c.pack_into(out.data()); uint64_t u = img_get(out.data(), %d, %d); int64_t i = %s;' % (size, off, w, 'sx(u, %d)' % w if k == 'fx' else '(int64_t)u'))
            o.append('  double s = d * %d.0; double e = s - (double)i; vs_assert(e <= 0.5 && e >= -0.5, "%s.%s.nearest");' % (2**r, c, n))
            o.append('  vs_assert(c.%s() == (double)i / %d.0, "%s.%s.readback"); vs_reach("end"); }' % (n, 2**r, c, n))
            ents.append(Entry('e_%s_%s' % (ident(c), n), 600))
        chk.add(TU('p03_' + ident(c), '\n'.join(o), ents))


def P04(chk):
    """decode/encode identity on any image, exact extent"""
    for c, (size, fs) in CLASSES.items():
        o = [PRE, 'extern "C" void e_%s() { %s c; vs_buf in(%d, "in"), out(%d); c.unpack_from(in.data()); c.pack_into(out.data());' % (ident(c), c, size, size)]
        o.append('  vs_assert(std::memcmp(in.data(), out.data(), %d) == 0, "%s.identity"); vs_assert(c.size() == %d, "%s.size");' % (size, c, size, c))
        o.append('  %s d(c); vs_buf o2(%d); d.pack_into(o2.data()); vs_assert(std::memcmp(in.data(), o2.data(), %d) == 0, "%s.copy"); vs_reach("end"); }' % (c, size, size, c))
        chk.add(TU('p04_' + ident(c), '\n'.join(o), [Entry('e_' + ident(c), 60)]))


# ---------------------------------------------------------------------- P05 variable-length structures
GPS = r'''
static void gps_ref(uint8_t *p, uint32_t oui, const uint8_t *s, size_t n) {   // reference image
  uint32_t w = (n + 3) / 4; img_set(p, 0, 32, oui & 0xffffff); img_set(p, 32, 32, w);
  for (size_t i = 0; i < w * 4; i++) p[8 + i] = i < n ? s[i] : 0;
}
extern "C" void e_gps_set() {        // any sequence of two sentences lists, any lengths
  GPS_ASCII g; size_t n1 = vs_pick("n1", 0, %(N)d), n2 = vs_pick("n2", 0, %(N)d); uint32_t oui = vs_u32("oui"); vs_assume(oui < (1u << 24));
  vs_buf a(n1, "s1"), b(n2, "s2");
  g.manufacturer_oui(oui);
  g.ascii_sentences(std::vector<uint8_t>(a.data(), a.data() + n1));
  g.ascii_sentences(std::vector<uint8_t>(b.data(), b.data() + n2));
  size_t sz = 8 + (n2 + 3) / 4 * 4; vs_assert(g.size() == sz, "gps.size"); vs_assert(g.number_of_words() == (n2 + 3) / 4, "gps.words");
  vs_buf ref(sz), out(sz); gps_ref(ref.data(), oui, b.data(), n2); g.pack_into(out.data());
  vs_assert(std::memcmp(ref.data(), out.data(), sz) == 0, "gps.image");
  const GPS_ASCII &k = g; vs_assert(k.ascii_sentences().size() == sz - 8, "gps.len");
  for (size_t i = 0; i < n2; i++) vs_assert(k.ascii_sentences()[i] == b[i], "gps.text");
  vs_reach("end");
}
extern "C" void e_gps_wire() {       // any wire image, object used before for another image
  size_t w0 = vs_pick("w0", 0, %(W)d), w = vs_pick("w", 0, %(W)d); vs_buf in0(8 + 4 * w0, "in0"), in(8 + 4 * w, "in"), out(8 + 4 * w);
  img_set(in0.data(), 32, 32, w0); img_set(in.data(), 32, 32, w);
  GPS_ASCII g; g.unpack_from(in0.data()); g.unpack_from(in.data());
  vs_assert(g.size() == 8 + 4 * w, "gps.wire.size"); vs_assert(g.number_of_words() == w, "gps.wire.words"); vs_assert(g.manufacturer_oui() == img_get(in.data(), 8, 24), "gps.wire.oui");
  for (size_t i = 0; i < 4 * w; i++) vs_assert(g.ascii_sentences()[i] == in[8 + i], "gps.wire.text");
  g.pack_into(out.data()); vs_assert(std::memcmp(in.data(), out.data(), 8 + 4 * w) == 0, "gps.wire.identity"); vs_reach("end");
}
'''
GPS_H = r'''
static void gps_now(const GPS_ASCII &g, const std::vector<uint8_t> &m, uint32_t oui, size_t pad) {     // m: the sentence bytes in force; pad: zero bytes the object may keep behind them
  size_t w = (m.size() + 3) / 4, sz = 8 + 4 * w;
  vs_assert(g.size() == sz, "gps.hist.size"); vs_assert(g.number_of_words() == w, "gps.hist.words"); vs_assert(g.manufacturer_oui() == oui, "gps.hist.oui");
  vs_buf ref(sz), out(sz); gps_ref(ref.data(), oui, m.data(), m.size()); g.pack_into(out.data()); vs_assert(std::memcmp(ref.data(), out.data(), sz) == 0, "gps.hist.image");
  size_t n = g.ascii_sentences().size(); vs_assert(n >= m.size() && n <= 4 * w, "gps.hist.length"); for (size_t i = 0; i < m.size(); i++) vs_assert(g.ascii_sentences()[i] == m[i], "gps.hist.text");
}
extern "C" void e_gps_hist() {       // setting, adding, replacing, removing and unpacking in any order
  GPS_ASCII g; std::vector<uint8_t> m; uint32_t oui = 0;
  for (int i = 0; i < %(H)d; i++) switch (vs_pick("op", 0, 6)) {
  case 0: { size_t n = vs_pick("n", 0, %(HN)d); m.clear(); for (size_t j = 0; j < n; j++) m.push_back(vs_u8("s")); g.ascii_sentences(m); m = g.ascii_sentences(); vs_assert(m.size() == (n + 3) / 4 * 4, "gps.hist.padded"); vs_reach("set"); break; }
  case 1: { uint8_t c = vs_u8("c"); m.push_back(c); g.ascii_sentences().push_back(c); vs_reach("push"); break; }
  case 2: m.clear(); g.ascii_sentences().clear(); vs_reach("clear"); break;
  case 3: { if (m.empty()) break; size_t k = vs_pick("k", 0, m.size() - 1); uint8_t c = vs_u8("c"); m[k] = c; g.ascii_sentences()[k] = c; vs_reach("change"); break; }
  case 4: { size_t n = vs_pick("n", 0, %(HN)d); m.assign(n, 65); g.ascii_sentences() = m; vs_reach("assign"); break; }
  case 5: { size_t w = vs_pick("w", 0, 2); vs_buf in(8 + 4 * w, "in"); img_set(in.data(), 0, 8, 0); img_set(in.data(), 32, 32, w); oui = img_get(in.data(), 8, 24); m.assign(in.data() + 8, in.data() + 8 + 4 * w); g.unpack_from(in.data()); vs_reach("unpack"); break; }
  case 6: oui = vs_u32("oui"); vs_assume(oui < (1u << 24)); g.manufacturer_oui(oui); vs_reach("oui"); break;
  }
  gps_now(g, m, oui, 3); GPS_ASCII k(g); g = k; gps_now(g, m, oui, 3); vs_reach("end");
}
extern "C" void e_gps_big() {        // long texts: the count takes every byte of its word
  static const size_t B[] = {1019, 1020, 1021, 65540, %(GB)s}; size_t n = B[vs_pick("n", 0, %(GBN)d)]; std::vector<uint8_t> m(n, 0x41); m[0] = vs_u8("first"); m[n - 1] = vs_u8("last"); uint32_t oui = 0xabcdef;
  GPS_ASCII g; g.manufacturer_oui(oui); g.ascii_sentences(m); gps_now(g, g.ascii_sentences(), oui, 3);
  size_t sz = g.size(); vs_assert(sz == 8 + (n + 3) / 4 * 4, "gps.big.size"); vs_buf out(sz); g.pack_into(out.data()); GPS_ASCII h; h.unpack_from(out.data()); gps_now(h, g.ascii_sentences(), oui, 3); vs_reach("end");
}
'''
CAL_H = r'''
static void cal_now(ContextAssociationLists &c, const lists &l) {
  size_t sz = 8; for (auto &v : l.v) sz += 4 * v.size();
  vs_assert(c.size() == sz, "cal.now.size"); vs_buf ref(sz), out(sz); cal_ref(ref.data(), l); c.pack_into(out.data()); vs_assert(std::memcmp(ref.data(), out.data(), sz) == 0, "cal.now.image");
  ContextAssociationLists d; d.unpack_from(out.data());
  vs_assert(d.size() == sz, "cal.now.wire"); vs_assert(d.source_list() == l.v[0], "cal.now.source"); vs_assert(d.system_list() == l.v[1], "cal.now.system"); vs_assert(d.vector_component_list() == l.v[2], "cal.now.vector");
  vs_assert(d.async_channel_list() == l.v[3], "cal.now.async"); vs_assert(d.async_channel_tag_list() == l.v[4], "cal.now.tag");
}
static std::vector<uint32_t> &ref_of(ContextAssociationLists &c, int k) { switch (k) { case 0: return c.source_list(); case 1: return c.system_list(); case 2: return c.vector_component_list(); case 3: return c.async_channel_list(); default: return c.async_channel_tag_list(); } }
static void put(ContextAssociationLists &c, int k, const std::vector<uint32_t> &v) { switch (k) { case 0: c.source_list(v); break; case 1: c.system_list(v); break; case 2: c.vector_component_list(v); break; case 3: c.async_channel_list(v); break; default: c.async_channel_tag_list(v); } }
extern "C" void e_cal_hist() {       // from any lists of a received image, every sequence of adding, replacing and clearing
  lists l; for (int i = 0; i < 3; i++) l.v[i] = mk("in", vs_pick("n", 0, 1)); bool tags = vs_pick("tags", 0, 1); l.v[3] = mk("async", tags); l.v[4] = mk("tag", tags);
  size_t sz = 8; for (auto &v : l.v) sz += 4 * v.size(); vs_buf in(sz); cal_ref(in.data(), l); ContextAssociationLists c; c.unpack_from(in.data());
  for (int i = 0; i < %(CH)d; i++) {
    int k = (int)vs_pick("list", 0, 3); uint32_t x = vs_u32("x");
    switch (vs_pick("op", 0, 2)) {
    case 0: ref_of(c, k).push_back(x); l.v[k].push_back(x); if (k == 3 && !l.v[4].empty()) { ref_of(c, 4).push_back(~x); l.v[4].push_back(~x); } vs_reach("add"); break;
    case 1: ref_of(c, k).clear(); l.v[k].clear(); if (k == 3) { ref_of(c, 4).clear(); l.v[4].clear(); } vs_reach("clear"); break;
    case 2: { std::vector<uint32_t> v{x, ~x}; put(c, k, v); l.v[k] = v; if (k == 3) { l.v[4] = {x ^ 1, x ^ 2}; put(c, 4, l.v[4]); } vs_reach("replace"); break; }
    }
    if (i == 0 && vs_pick("pack", 0, 1)) { vs_buf o(c.size()); c.pack_into(o.data()); }
  }
  cal_now(c, l); ContextAssociationLists k(c); c = k; cal_now(c, l); vs_reach("end");
}
extern "C" void e_cal_big() {        // counts up to the width of each subfield
  static const size_t B[5][3] = {{255, 256, 511}, {255, 256, 511}, {255, 256, %(CV)d}, {255, 256, %(CA)d}, {255, 256, %(CA)d}};
  int k = (int)vs_pick("list", 0, 4); size_t n = B[k][vs_pick("n", 0, 2)]; lists l; l.v[k].assign(n, 0x01020304); l.v[k][0] = vs_u32("first"); l.v[k][n - 1] = vs_u32("last"); if (k == 4) l.v[3] = l.v[4];
  ContextAssociationLists c; for (int i = 0; i < 5; i++) put(c, i, l.v[i]); cal_now(c, l); vs_reach("end");
}
'''
CAL = r'''
struct lists { std::vector<uint32_t> v[5]; };
static std::vector<uint32_t> mk(const char *n, size_t k) { std::vector<uint32_t> r; for (size_t i = 0; i < k; i++) r.push_back(vs_u32(n)); return r; }
static size_t cal_ref(uint8_t *p, const lists &l) {      // reference image; entries are 32-bit big-endian identifiers
  img_set(p, 0, 32, 0); img_set(p, 32, 32, 0);
  img_set(p, 7, 9, l.v[0].size()); img_set(p, 23, 9, l.v[1].size()); img_set(p, 32, 16, l.v[2].size()); img_set(p, 48, 1, !l.v[4].empty()); img_set(p, 49, 15, l.v[3].size());
  size_t o = 8; for (auto &v : l.v) for (uint32_t x : v) { img_set(p + o, 0, 32, x); o += 4; } return o;
}
static lists pick_lists(int mx) {
  lists l; l.v[0] = mk("source", vs_pick("n_source", 0, mx)); l.v[1] = mk("system", vs_pick("n_system", 0, mx)); l.v[2] = mk("vector", vs_pick("n_vector", 0, mx));
  size_t n = vs_pick("n_async", 0, mx); l.v[3] = mk("async", n); l.v[4] = mk("tag", n && vs_pick("tags", 0, 1) ? n : 0); return l;
}
extern "C" void e_cal() {
  lists l = pick_lists(%(L)d); ContextAssociationLists c;
  c.source_list(l.v[0]); c.system_list(l.v[1]); c.vector_component_list(l.v[2]); c.async_channel_list(l.v[3]); c.async_channel_tag_list(l.v[4]);
  size_t sz = 8; for (auto &v : l.v) sz += 4 * v.size();
  vs_assert(c.size() == sz, "cal.size"); vs_buf ref(sz), out(sz); cal_ref(ref.data(), l); c.pack_into(out.data());
  vs_assert(std::memcmp(ref.data(), out.data(), sz) == 0, "cal.image");
  ContextAssociationLists d; d.source_list({1, 2}); d.async_channel_tag_list({3}); d.unpack_from(out.data());
  vs_assert(d.size() == sz, "cal.wire.size");
  vs_assert(d.source_list() == l.v[0], "cal.source"); vs_assert(d.system_list() == l.v[1], "cal.system"); vs_assert(d.vector_component_list() == l.v[2], "cal.vector");
  vs_assert(d.async_channel_list() == l.v[3], "cal.async"); vs_assert(d.async_channel_tag_list() == l.v[4], "cal.tag");
  vs_assert(d.source_list_size() == l.v[0].size() && d.system_list_size() == l.v[1].size() && d.vector_component_list_size() == l.v[2].size() && d.async_channel_list_size() == l.v[3].size(), "cal.sizes");
  vs_assert(d.async_channel_tag_list_enable() == !l.v[4].empty(), "cal.enable");
  vs_buf o2(sz); d.pack_into(o2.data()); vs_assert(std::memcmp(ref.data(), o2.data(), sz) == 0, "cal.identity"); vs_reach("end");
}
'''
IDX = r'''
template <typename T> static void idx(unsigned code) {
  size_t n = vs_pick("n", 0, %(I)d); IndexList<T> c; std::vector<T> e; for (size_t i = 0; i < n; i++) e.push_back((T)vs_sym("e", sizeof(T) * 8));
  uint32_t total = vs_u32("total"); c.total_size(total); c.entry_size((EntrySize)code); c.num_entries(n); c.entries(e);
  size_t sz = 8 + (n * sizeof(T) + 3) / 4 * 4; vs_assert(c.size() == sz, "index.size");
  vs_buf ref(sz), out(sz); std::memset(ref.data(), 0, sz); img_set(ref.data(), 0, 32, total); img_set(ref.data(), 32, 4, code); img_set(ref.data(), 44, 20, n);
  for (size_t i = 0; i < n; i++) for (size_t j = 0; j < sizeof(T); j++) ref[8 + i * sizeof(T) + j] = (uint8_t)((uint64_t)e[i] >> (8 * (sizeof(T) - 1 - j)));
  c.pack_into(out.data()); vs_assert(std::memcmp(ref.data(), out.data(), sz) == 0, "index.image");
  IndexList<T> d; d.entries({1, 2, 3}); d.unpack_from(ref.data()); vs_assert(d.entries() == e, "index.entries"); vs_assert(d.total_size() == total && d.num_entries() == n && (unsigned)d.entry_size() == code, "index.header");
  vs_assert(d.size() == sz, "index.wire.size"); vs_buf o2(sz); d.pack_into(o2.data()); vs_assert(std::memcmp(ref.data(), o2.data(), sz) == 0, "index.identity"); vs_reach("end");
}
template <typename T> static void idx_big(unsigned code) {
  static const size_t B[] = {255, 256, 4096, 65536, %(IB)s}; size_t n = B[vs_pick("n", 0, %(IBN)d)]; IndexList<T> c; std::vector<T> e(n, (T)0x51525354); e[0] = (T)vs_sym("first", sizeof(T) * 8); e[n - 1] = (T)vs_sym("last", sizeof(T) * 8);
  c.total_size(n); c.entry_size((EntrySize)code); c.num_entries(n); c.entries(e); size_t sz = 8 + (n * sizeof(T) + 3) / 4 * 4; vs_assert(c.size() == sz, "index.big.size"); vs_assert(c.num_entries() == n, "index.big.count");
  vs_buf out(sz); c.pack_into(out.data()); vs_assert(img_get(out.data(), 44, 20) == n, "index.big.header"); IndexList<T> d; d.unpack_from(out.data()); vs_assert(d.size() == sz, "index.big.wire"); vs_assert(d.entries() == e, "index.big.entries"); vs_reach("end");
}
extern "C" void e_idx8_big() { idx_big<uint8_t>(1); }
extern "C" void e_idx16_big() { idx_big<uint16_t>(2); }
extern "C" void e_idx32_big() { idx_big<uint32_t>(4); }
extern "C" void e_idx8() { idx<uint8_t>(1); }
extern "C" void e_idx16() { idx<uint16_t>(2); }
extern "C" void e_idx32() { idx<uint32_t>(4); }
'''
SSS = r'''
struct rec { uint8_t b[8]; rec() : b{} {} size_t size() const { return 8; } void pack_into(uint8_t *p) const { std::memcpy(p, b, 8); } void unpack_from(const uint8_t *p) { std::memcpy(b, p, 8); } };
extern "C" void e_sss() {
  size_t n = vs_pick("n", 0, %(S)d); SectorStepScan<rec> c; uint32_t as = vs_u32("array_size"); uint8_t hs = vs_u8("header_size"); uint16_t nw = vs_u16("num_words_record"); vs_assume(nw < 4096);
  vs_buf ci(4, "cif"), r(8 * n, "records"); SectorStepScanCIF cif; cif.unpack_from(ci.data()); std::vector<rec> rs(n); for (size_t i = 0; i < n; i++) rs[i].unpack_from(r.data() + 8 * i);
  c.array_size(as); c.header_size(hs); c.num_words_record(nw); c.num_records(n); c.subfield_cif(cif); c.records(rs);
  size_t sz = 12 + 8 * n; vs_assert(c.size() == sz, "sss.size"); vs_buf ref(sz), out(sz);
  img_set(ref.data(), 0, 32, as); img_set(ref.data(), 32, 8, hs); img_set(ref.data(), 40, 12, nw); img_set(ref.data(), 52, 12, n); std::memcpy(ref.data() + 8, ci.data(), 4); std::memcpy(ref.data() + 12, r.data(), 8 * n);
  c.pack_into(out.data()); vs_assert(std::memcmp(ref.data(), out.data(), sz) == 0, "sss.image");
  SectorStepScan<rec> d; d.records(std::vector<rec>(2)); d.unpack_from(ref.data()); vs_assert(d.size() == sz, "sss.wire.size"); vs_assert(d.array_size() == as && d.header_size() == hs && d.num_words_record() == nw && d.num_records() == n, "sss.header");
  for (size_t i = 0; i < n; i++) vs_assert(std::memcmp(d.records()[i].b, r.data() + 8 * i, 8) == 0, "sss.records");
  vs_buf o2(sz); d.pack_into(o2.data()); vs_assert(std::memcmp(ref.data(), o2.data(), sz) == 0, "sss.identity"); vs_reach("end");
}
extern "C" void e_sss_big() {        // counts up to the width of the subfield
  static const size_t B[] = {255, 256, 4095}; size_t n = B[vs_pick("n", 0, 2)]; SectorStepScan<rec> c; std::vector<rec> rs(n); rs[0].b[0] = vs_u8("first"); rs[n - 1].b[7] = vs_u8("last"); c.num_records(n); c.records(rs); size_t sz = 12 + 8 * n; c.array_size(sz / 4); vs_assert(c.size() == sz, "sss.big.size");
  vs_buf out(sz); c.pack_into(out.data()); vs_assert(img_get(out.data(), 52, 12) == n, "sss.big.header"); SectorStepScan<rec> d; d.unpack_from(out.data()); vs_assert(d.size() == sz && d.num_records() == n && d.records().size() == n, "sss.big.wire");
  for (size_t i = 0; i < n; i++) vs_assert(std::memcmp(d.records()[i].b, rs[i].b, 8) == 0, "sss.big.records"); vs_reach("end");
}
'''


def P05(chk):
    th = chk.tier == 'thorough'
    k = dict(N=13 if th else 9, W=6 if th else 4, L=3 if th else 2, I=9 if th else 6, S=6 if th else 3, H=4 if th else 3, HN=5 if th else 4, CH=3 if th else 2,
             GB='262148', GBN=4, CV=65535, CA=32767, IB='1048575' if th else '131071', IBN=4)
    chk.bounds = 'sentence lists of 0..%(N)d bytes (two consecutive assignments), wire images of 0..%(W)d text words, association lists of 0..%(L)d entries each, index lists of 0..%(I)d entries, 0..%(S)d sector/step/scan records; all contents symbolic; histories of %(H)d (sentences) and %(CH)d (association lists) operations through setters and references; counts of 255, 256, 511, 4095, 65536 and more with symbolic first and last entries' % k
    chk.add(TU('p05_gps', PRE + GPS % k, [Entry('e_gps_set', 200), Entry('e_gps_wire', 200)]))
    chk.add(TU('p05_gps_h', PRE + (GPS + GPS_H) % k, [Entry('e_gps_hist', 200), Entry('e_gps_big', 200)]))
    chk.add(TU('p05_cal_h', PRE + (CAL + CAL_H) % k, [Entry('e_cal_hist', 200), Entry('e_cal_big', 200)]))
    chk.add(TU('p05_cal', PRE + CAL % k, [Entry('e_cal', 300)]))
    chk.add(TU('p05_idx', PRE + IDX % k, [Entry('e_idx8', 200), Entry('e_idx16', 200), Entry('e_idx32', 200), Entry('e_idx8_big', 200), Entry('e_idx16_big', 200), Entry('e_idx32_big', 200)]))
    chk.add(TU('p05_sss', PRE + SSS % k, [Entry('e_sss', 200), Entry('e_sss_big', 200)]))


# ---------------------------------------------------------------------- P06 UUID, byte order
UUIDS = r'''
static int hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static const char *BASE[2] = {"00000000-0000-0000-0000-000000000000", "8f1E77a0-5B3c-4d2F-96E8-c0DdfA9b1234"};
static unsigned tpos(unsigned k) { return k + (k >= 8) + (k >= 12) + (k >= 16) + (k >= 20); }    // text position of hex digit k
extern "C" void e_uuid_bytes() {     // any 16 bytes survive, in order
  vs_buf in(16, "in"), out(16); vrtgen::UUID u; u.unpack_from(in.data()); u.pack_into(out.data());
  vs_assert(std::memcmp(in.data(), out.data(), 16) == 0, "uuid.identity"); vs_assert(u.size() == 16, "uuid.size");
  { vs_buf in2(16, "in2"), o4(16); vrtgen::UUID w(u); w.unpack_from(in2.data()); w.pack_into(o4.data()); vs_assert(std::memcmp(in2.data(), o4.data(), 16) == 0, "uuid.again"); }
  vrtgen::UUID v(u); vs_buf o2(16); v.pack_into(o2.data()); vs_assert(std::memcmp(in.data(), o2.data(), 16) == 0, "uuid.copy");
  vrtgen::UUID z; vs_buf o3(16); z.pack_into(o3.data()); for (int i = 0; i < 16; i++) vs_assert(o3[i] == 0, "uuid.nil"); vs_reach("end");
}
extern "C" void e_uuid_set() {       // one arbitrary hex digit (any case) at any position of a UUID text
  std::string s(BASE[vs_pick("base", 0, 1)]); unsigned k = vs_pick("digit", 0, 31); char c = (char)vs_u8("char"); vs_assume(hexv(c) >= 0); s[tpos(k)] = c;
  unsigned how = vs_pick("ctor", 0, 3); vrtgen::UUID u; vs_buf old(16, "old");     // a fresh object or one that held any other UUID
  if (how == 0) u = vrtgen::UUID(s); else if (how == 1) u.set(s); else { u.unpack_from(old.data()); if (how == 2) u.set(s); else { vrtgen::UUID t(s); u = t; } }
  vs_buf out(16); u.pack_into(out.data());
  for (unsigned i = 0; i < 32; i++) vs_assert(((out[i / 2] >> (i % 2 ? 0 : 4)) & 15) == hexv(s[tpos(i)]), "uuid.text2bytes"); vs_reach("end");
}
extern "C" void e_uuid_get() {       // one arbitrary nibble at any position
  vs_buf in(16); std::string b(BASE[vs_pick("base", 0, 1)]); for (unsigned i = 0; i < 16; i++) in[i] = hexv(b[tpos(2 * i)]) << 4 | hexv(b[tpos(2 * i + 1)]);
  unsigned k = vs_pick("digit", 0, 31); uint8_t x = (uint8_t)vs_pick("nibble", 0, 15); in[k / 2] = k % 2 ? (in[k / 2] & 0xf0) | x : (in[k / 2] & 0x0f) | x << 4;
  vrtgen::UUID u; vs_buf old(16, "old"); if (vs_pick("held", 0, 1)) u.unpack_from(old.data());
  u.unpack_from(in.data()); std::string s = u.get(); vs_assert(s.size() == 36, "uuid.textlen");
  for (unsigned i = 0; i < 36; i++) if (i == 8 || i == 13 || i == 18 || i == 23) vs_assert(s[i] == '-', "uuid.hyphen");
  for (unsigned i = 0; i < 32; i++) { char c = s[tpos(i)]; unsigned h = (in[i / 2] >> (i % 2 ? 0 : 4)) & 15; vs_assert(c == (char)(h < 10 ? '0' + h : 'a' + h - 10), "uuid.bytes2text"); }
  vs_reach("end");
}
template <typename T> static void sw(const char *id) {
  T v = (T)vs_sym("v", sizeof(T) * 8), w = vrtgen::swap::to_be(v); uint8_t b[sizeof(T)]; std::memcpy(b, &w, sizeof(T));
  for (unsigned i = 0; i < sizeof(T); i++) vs_assert(b[i] == (uint8_t)((uint64_t)v >> (8 * (sizeof(T) - 1 - i))), id);
  vs_assert(vrtgen::swap::from_be(w) == v, id);
}
extern "C" void e_swap() { sw<uint8_t>("swap.u8"); sw<uint16_t>("swap.u16"); sw<uint32_t>("swap.u32"); sw<uint64_t>("swap.u64"); sw<int8_t>("swap.i8"); sw<int16_t>("swap.i16"); sw<int32_t>("swap.i32"); sw<int64_t>("swap.i64"); vs_reach("end"); }
'''


def P06(chk):
    chk.bounds = 'binary direction: all 128 bits symbolic; text direction: one arbitrary digit at each of the 32 positions of two base texts (the remaining digits concrete)'
    chk.add(TU('p06_uuid', PRE + UUIDS, [Entry('e_uuid_bytes', 60), Entry('e_uuid_set', 400), Entry('e_uuid_get', 400), Entry('e_swap', 60)]))


# ---------------------------------------------------------------------- P07 indicators gated by an enable bit
SEI = [('calibrated_time', 19, 31), ('valid_data', 18, 30), ('reference_lock', 17, 29), ('agc_mgc', 16, 28), ('detected_signal', 15, 27), ('spectral_inversion', 14, 26), ('over_range', 13, 25), ('sample_loss', 12, 24)]


def P07(chk):
    """every prior image, then a history of arbitrary set/reset operations, then one getter"""
    for cls in ('StateEventIndicators', 'Trailer'):
        g = [('k.%s() == (img_get(out.data(), 31 - %d, 1) ? std::optional<bool>(img_get(out.data(), 31 - %d, 1) != 0) : std::nullopt)' % (n, e, v), n) for n, v, e in SEI]
        ops = []
        for nm, v, e in SEI:
            ops.append(('set_' + nm, 'bool v = vs_bool("v"); c.%s(v); img_set(ex.data(), 31 - %d, 1, 1); img_set(ex.data(), 31 - %d, 1, v);' % (nm, e, v)))
            ops.append(('reset_' + nm, 'c.reset_%s(); img_set(ex.data(), 31 - %d, 1, 0); img_set(ex.data(), 31 - %d, 1, 0);' % (nm, e, v)))
        if cls == 'Trailer':
            g.append(('k.sample_frame() == (img_get(out.data(), 8, 2) == 3 ? std::optional<SSI>((SSI)img_get(out.data(), 20, 2)) : std::nullopt)', 'sample_frame'))
            g.append(('k.associated_context_packets_count() == (img_get(out.data(), 24, 1) ? std::optional<uint8_t>((uint8_t)img_get(out.data(), 25, 7)) : std::nullopt)', 'count'))
            ops.append(('sample_frame', 'auto v = (SSI)vs_sym("ssi", 2); c.sample_frame(v); img_set(ex.data(), 8, 2, 3); img_set(ex.data(), 20, 2, (uint64_t)v);'))
            ops.append(('count', 'uint8_t v = (uint8_t)vs_sym("n", 7); c.associated_context_packets_count(v); img_set(ex.data(), 24, 1, 1); img_set(ex.data(), 25, 7, v);'))
        o = [PRE]
        for ent, n in (('d', 0), ('h', 2 if chk.tier == 'quick' else 3)):
            o.append('extern "C" void %s_%s() { %s c; vs_buf in(4, "in"), ex(4), out(4); c.unpack_from(in.data()); std::memcpy(ex.data(), in.data(), 4); const %s &k = c;' % (ent, cls, cls, cls))
            if n:
                o.append('  for (int i = 0; i < %d; i++) switch (vs_pick("op", 0, %d)) {' % (n, len(ops) - 1))
                for i, (id, code) in enumerate(ops): o.append('  case %d: { %s vs_reach("%s"); break; }' % (i, code, id))
                o.append('  }')
            o.append('  c.pack_into(out.data()); vs_assert(std::memcmp(ex.data(), out.data(), 4) == 0, "%s.image"); vs_assert(k.size() == 4, "%s.size");' % (cls, cls))
            o.append('  switch (vs_pick("get", 0, %d)) {' % (len(g) - 1))
            for i, (code, id) in enumerate(g): o.append('  case %d: vs_assert(%s, "%s.%s.get"); break;' % (i, code, cls, id))
            o.append('  } vs_reach("end"); }')
        chk.add(TU('p07_' + cls, '\n'.join(o), [Entry('d_' + cls, 100), Entry('h_' + cls, 300, expect_reach=[x for x, _ in ops])]))
    # any()/none() of every indicator field
    o = [PRE]; ents = []
    for c in ('CIF0', 'CIF1', 'CIF2', 'CIF7', 'WIF0', 'EIF0', 'WEIF1', 'WEIF2', 'WEIF3', 'WEIF7', 'SectorStepScanCIF'):
        if c == 'SectorStepScanCIF': continue
        o.append('extern "C" void e_any_%s() { %s c; vs_buf in(4, "in"); c.unpack_from(in.data()); vs_assert(c.any() == (be(in.data(), 4) != 0), "%s.any"); vs_assert(c.none() == (be(in.data(), 4) == 0), "%s.none"); vs_reach("end"); }' % (c, c, c, c))
        ents.append(Entry('e_any_' + c, 30))
    chk.add(TU('p07_any', '\n'.join(o), ents))


# ---------------------------------------------------------------------- P08 freshly constructed structures
def P08(chk):
    for c, (size, fs) in list(CLASSES.items()) + [('StateEventIndicators', (4, [])), ('Trailer', (4, []))]:
        d = DEFAULTS.get(c, [0] * size)
        o = [PRE, 'static const uint8_t EX[] = {%s};' % ','.join(map(str, d))]
        o.append('extern "C" void e_%s() { vs_buf out(%d); { auto *c = new %s; vs_assert(c->size() == %d, "%s.size"); c->pack_into(out.data()); delete c; }' % (ident(c), size, c, size, c))
        o.append('  vs_check_init(out.data(), %d, "%s.defined"); for (unsigned i = 0; i < %d; i++) vs_assert(out[i] == EX[i], "%s.default"); vs_reach("end"); }' % (size, c, size, c))
        chk.add(TU('p08_' + ident(c), '\n'.join(o), [Entry('e_' + ident(c), 60)]))
    o = [PRE]; ents = []
    for c, sz in (('GPS_ASCII', 8), ('ContextAssociationLists', 8), ('IndexList<uint16_t>', 8), ('vrtgen::UUID', 16)):
        n = 'e_' + c.replace('<', '_').replace('>', '').replace('::', '_')
        o.append('extern "C" void %s() { vs_buf out(%d); auto *c = new %s; vs_assert(c->size() == %d, "%s.size"); c->pack_into(out.data()); vs_check_init(out.data(), %d, "%s.defined"); for (unsigned i = 0; i < %d; i++) vs_assert(out[i] == 0, "%s.default"); delete c; vs_reach("end"); }' % (n, sz, c, sz, c, sz, c, sz, c))
        ents.append(Entry(n, 60))
    chk.add(TU('p08_var', '\n'.join(o), ents))
