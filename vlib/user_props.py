"""User-defined bit structures: stream-id subfields and discrete I/O (G05)."""
from .driver import TU, Entry
from .pkt import COMMON, generate
from .gen_props import snake, R


def alloc(subs):
    """independent layout: subfields fill the word from bit 0 upwards in definition order; -> [(accessor, low bit, width, kind)]"""
    pos, r = 0, []
    for n, k in subs:
        w = k if isinstance(k, int) else len(k) if isinstance(k, tuple) else 1
        if isinstance(k, list): w = (len(k) + 1) // 2
        r.append((n, pos, w, 'enum' if isinstance(k, list) else 'int' if w > 1 else 'bool', len(k) if isinstance(k, list) else 0))
        pos += w
        if k == 'ei':
            r.append((n + '_enable', pos, 1, 'bool', 0)); pos += 1
    return r


def ytype(k): return 'bool' if k == 'bool' else 'enable_indicator' if k == 'ei' else '[%s]' % ', '.join(k) if isinstance(k, list) else str(k)


SIDS = {'SidMix': [('node', 5), ('flag', 1), ('chan', 12), ('seq', 14)], 'SidOne': [('whole', 32)], 'SidTwo': [('lo', 16), ('hi', 16)], 'SidPart': [('a', 3), ('b', 9), ('c', 8), ('d', 1), ('e', 2)]}
DIO = {'DioMix': ([('sw', 'bool'), ('en', 'ei'), ('kind', ['zero', 'one', 'two']), ('num', 8), ('wide', 17)], [('a', 31), ('b', 'ei'), ('c', ['zero', 'one', 'two', 'three', 'four']), ('d', 20), ('e', 'bool')]),
       'DioTwo': ([('wide', 32)], [('lo', 32), ('hi', 32)]), 'DioOdd': ([('a', 9), ('b', 17), ('c', 2)], [('x', 33), ('y', 15), ('z', 16)]),
       'DioThree': ([('x', 'ei'), ('y', 'ei'), ('n', 16), ('z', 'bool')], [('p', 7), ('q', 8), ('r', 9), ('m', ['u', 'v']), ('s', 24), ('t', 'ei')])}


def struct_code(tag, ref, subs, size, enumns):
    """ops and getters over struct expression `ref` with model image m[size]"""
    al = alloc(subs)
    ct = 'uint%d_t' % (8 * size)
    o, g = [], []
    for n, lo, w, k, cnt in al:
        mask = '(%s)0x%xull' % (ct, ((1 << w) - 1))
        val = {'bool': 'vs_bool("v")', 'enum': '(%s)vs_range("v", 0, %d)' % (ct, cnt - 1), 'int': '(%s)vs_sym("v", %d)' % (ct, w)}[k]
        arg = {'bool': '(bool)v', 'enum': '(%s::%s)(int)v' % (enumns, n), 'int': 'v'}[k]
        o.append('{ auto v = %s; bits_set(m, %d, %d, %d, (uint64_t)v); s.%s(%s); }' % (val, size, lo, w, n, arg))
        got = 's.%s()' % n
        g.append('vs_assert((uint64_t)%s == bits(m, %d, %d, %d), "%s");' % (got, size, lo, w, n))
    return ('''template <class S> static void ops_%(t)s(int k, S &s, uint8_t *m) { switch (k) { %(o)s } }
template <class S> static void get_%(t)s(S &s, const uint8_t *m) { %(g)s uint8_t b[8]; vs_assert(s.size() == %(n)d, "size"); s.pack_into(b); vs_assert(same_bytes(b, m, %(n)d), "packed"); }
constexpr int NO_%(t)s = %(c)d;
''' % dict(t=tag, o=' '.join('case %d: %s break;' % x for x in enumerate(o)), g=' '.join(g), n=size, c=len(o)))


HELP = '''static uint64_t bits(const uint8_t *m, int size, int lo, int w) { uint64_t v = be(m, size) >> lo; return w == 64 ? v : v & ((1ull << w) - 1); }
static void bits_set(uint8_t *m, int size, int lo, int w, uint64_t x) { uint64_t k = (w == 64 ? ~0ull : ((1ull << w) - 1)) << lo; uint64_t v = (be(m, size) & ~k) | ((x << lo) & k); for (int i = 0; i < size; i++) m[i] = (uint8_t)(v >> 8 * (size - 1 - i)); }
static void w32(uint8_t *o, uint32_t v) { for (int i = 0; i < 4; i++) o[i] = (uint8_t)(v >> (24 - 8 * i)); }
'''


def G05(chk):
    T = chk.tier == 'thorough'
    y = []
    for n, subs in SIDS.items():
        y.append('%s: !Context\n  stream_id: !StreamID\n%s  cif_0: !CIF0\n    change_indicator: required\n    bandwidth: optional\n' % (n, ''.join('    %s: !IntegerType {bits: %d}\n' % s for s in subs)))
        y.append('%sData: !Data\n  stream_id: !StreamID\n%s' % (n, ''.join('    %s: !IntegerType {bits: %d}\n' % s for s in subs)))
    for n, (a, b) in DIO.items():
        for suf, ma, mb in (('', 'required', 'optional'), ('Opt', 'optional', 'required'), ('Both', 'optional', 'optional')):
            y.append('%s%s: !Context\n  cif_0: !CIF0\n    change_indicator: required\n  cif_1: !CIF1\n    discrete_io_32: !DiscreteIO32\n      mode: %s\n%s    discrete_io_64: !DiscreteIO64\n      mode: %s\n%s'
                     % (n, suf, ma, ''.join('      %s: %s\n' % (k, ytype(v)) for k, v in a), mb, ''.join('      %s: %s\n' % (k, ytype(v)) for k, v in b)))
    d = generate(chk, yaml='\n'.join(y))
    depth = 3 if T else 2
    chk.bounds = 'definitions: 4 stream-id splits on context and data packets, 4 pairs of discrete I/O words in 3 presence arrangements; histories of up to %d operations from fresh and from every received image' % depth
    for n, subs in SIDS.items():
        for pk in (n, n + 'Data'):
            ctx = pk == n
            code = COMMON + HELP + '#include "%s.hpp"\n' % snake(pk) + struct_code('sid', 'p.stream_id()', subs, 4, '') + '''
using P = ns::packets::%s; constexpr bool CTX = %s;
struct M { uint8_t cnt = 0, sid[4] = {}, bw[8] = {}; bool has = false, ci = false; };
static size_t img(const M &m, uint8_t *o) { size_t n = 4; memcpy(o + n, m.sid, 4); n += 4;
  if (CTX) { w32(o + n, (uint32_t)m.ci << 31 | (uint32_t)m.has << 29); n += 4; if (m.has) { memcpy(o + n, m.bw, 8); n += 8; } }
  w32(o, (CTX ? 0x40000000u : 0x10000000u) | (uint32_t)m.cnt << 16 | (uint32_t)(n / 4)); return n; }
static M arb(bool has) { M m; m.cnt = (uint8_t)vs_sym("count", 4); m.ci = vs_bool("ci"); vs_bytes(m.sid, 4, "sid"); vs_bytes(m.bw, 8, "bw"); m.has = has; return m; }
static void op(int k, P &p, M &m) { if (k < NO_sid) { ops_sid(k, p.stream_id(), m.sid); return; } k -= NO_sid;
  if (k == 0) { m.cnt = (uint8_t)vs_sym("count", 4); p.packet_count(m.cnt); return; }
%s}
constexpr int NO = NO_sid + %d;
static void whole(P &p, const M &m) { get_sid(p.stream_id(), m.sid); uint8_t r[24]; size_t n = img(m, r); auto d = p.data(); vs_assert(d.size() == n, "image-size"); if (d.size() == n) vs_assert(same_bytes(d, r, n), "image");
  get_sid(p.stream_id(), m.sid); vs_assert(p.packet_count() == m.cnt, "count"); %s }
static void reparse(P &p, const M &m) { auto d = p.data(); std::vector<uint8_t> w(d.begin(), d.end()); vs_assert(!P::match({w.data(), w.size()}), "match-own"); P q({w.data(), w.size()}); whole(q, m); }
''' % ('ns::packets::' + pk if False else pk, 'true' if ctx else 'false', '''  if (k == 1) { vs_bytes(m.bw, 8, "bw"); m.has = true; p.bandwidth((long double)(int64_t)be(m.bw, 8) / 1048576.0L); return; }
  if (k == 2) { m.has = false; p.reset_bandwidth(); return; }
''' if ctx else '', 3 if ctx else 1, 'vs_assert(p.bandwidth().has_value() == m.has, "has-bw");' if ctx else '')
            es = []
            for fn, body in [('parse', 'M m = arb(%s); std::vector<uint8_t> w(24); w.resize(img(m, w.data())); vs_assert(!P::match({w.data(), w.size()}), "match"); P p({w.data(), w.size()}); whole(p, m);' % ('vs_pick("has", 0, 1)' if ctx else 'false')),
                             ('edit', 'M m = arb(%s); std::vector<uint8_t> w(24); w.resize(img(m, w.data())); P p({w.data(), w.size()}); for (int i = 0; i < %d; i++) op((int)vs_pick("op", 0, NO - 1), p, m); whole(p, m); reparse(p, m);' % ('vs_pick("has", 0, 1)' if ctx else 'false', depth - 1)),
                             ('hist', 'P p; M m; for (int i = 0; i < %d; i++) op((int)vs_pick("op", 0, NO - 1), p, m); whole(p, m); reparse(p, m);' % depth),
                             ('fresh', 'P p; M m; whole(p, m); reparse(p, m);')]:
                code += 'extern "C" void %s_%s() { %s vs_reach("end"); }\n' % (pk, fn, body)
                es.append(Entry('%s_%s' % (pk, fn), **R))
            chk.add(TU(pk, code, es, srcs=['%s/%s.cpp' % (d, snake(pk))], incs=[d]))
    for n, (a, b) in DIO.items():
        for suf, ra, rb in (('', 1, 0), ('Opt', 0, 1), ('Both', 0, 0)):
            pk = n + suf
            ens = 'ns::packets::%s::enums' % snake(pk)
            S = 'ns::packets::%s::structs::DiscreteIO' % snake(pk)
            code = COMMON + HELP + '#include "%s.hpp"\n' % snake(pk) + struct_code('d32', '', a, 4, ens) + struct_code('d64', '', b, 8, ens)
            code += 'using P = ns::packets::%s; using S32 = %s32; using S64 = %s64; constexpr bool R32 = %d, R64 = %d;\n' % (pk, S, S, ra, rb)
            code += '''struct M { uint8_t cnt = 0, sid[4] = {}, a[4] = {}, b[8] = {}; bool ha = R32, hb = R64; };
static size_t img(const M &m, uint8_t *o) { size_t n = 4; memcpy(o + n, m.sid, 4); n += 4; bool c1 = R32 || R64 || m.ha || m.hb; w32(o + n, c1 ? 2 : 0); n += 4;
  if (c1) { w32(o + n, (uint32_t)m.ha << 6 | (uint32_t)m.hb << 5); n += 4; }
  if (m.ha) { memcpy(o + n, m.a, 4); n += 4; } if (m.hb) { memcpy(o + n, m.b, 8); n += 8; }
  w32(o, %s | (uint32_t)m.cnt << 16 | (uint32_t)(n / 4)); return n; }
static M arb(int k) { M m; m.cnt = (uint8_t)vs_sym("count", 4); vs_bytes(m.sid, 4, "sid"); if (!R32) m.ha = k & 1; if (!R64) m.hb = k >> 1 & 1; if (m.ha) vs_bytes(m.a, 4, "d32"); if (m.hb) vs_bytes(m.b, 8, "d64"); return m; }
template <class F> static auto &deref(F &f) { if constexpr (requires { f.value(); }) return *f; else return f; }
template <class F> static bool engaged(F &f) { if constexpr (requires { f.has_value(); }) return f.has_value(); else return true; }
template <class P> static void op(int k, P &p, M &m) {
  if (k == 0) { m.cnt = (uint8_t)vs_sym("count", 4); p.packet_count(m.cnt); }
  else if (k == 1) { vs_bytes(m.a, 4, "d32"); m.ha = true; S32 s; s.unpack_from(m.a); p.discrete_io_32(s); }
  else if (k == 2) { vs_bytes(m.b, 8, "d64"); m.hb = true; S64 s; s.unpack_from(m.b); p.discrete_io_64(s); }
  else if (k == 3) { if constexpr (!R32) { m.ha = false; p.reset_discrete_io_32(); } else { vs_bytes(m.a, 4, "d32"); p.discrete_io_32().unpack_from(m.a); } }
  else if (k == 4) { if constexpr (!R64) { m.hb = false; p.reset_discrete_io_64(); } else { vs_bytes(m.b, 8, "d64"); p.discrete_io_64().unpack_from(m.b); } }
  else if (k < 5 + NO_d32) { if (!m.ha) { if constexpr (!R32) { p.discrete_io_32() = S32{}; memset(m.a, 0, 4); m.ha = true; } } ops_d32(k - 5, deref(p.discrete_io_32()), m.a); }
  else { if (!m.hb) { if constexpr (!R64) { p.discrete_io_64() = S64{}; memset(m.b, 0, 8); m.hb = true; } } ops_d64(k - 5 - NO_d32, deref(p.discrete_io_64()), m.b); } }
constexpr int NO = 5 + NO_d32 + NO_d64;
template <class P> static void whole(P &p, const M &m) { for (int i = 0; i < 2; i++) {
  vs_assert(engaged(p.discrete_io_32()) == m.ha, "has32"); vs_assert(engaged(p.discrete_io_64()) == m.hb, "has64");
  if (m.ha && engaged(p.discrete_io_32())) get_d32(deref(p.discrete_io_32()), m.a); if (m.hb && engaged(p.discrete_io_64())) get_d64(deref(p.discrete_io_64()), m.b);
  uint8_t r[32]; size_t n = img(m, r); auto d = p.data(); vs_assert(d.size() == n, "image-size"); if (d.size() == n) vs_assert(same_bytes(d, r, n), "image"); } }
static void reparse(P &p, const M &m) { auto d = p.data(); std::vector<uint8_t> w(d.begin(), d.end()); vs_assert(!P::match({w.data(), w.size()}), "match-own"); P q({w.data(), w.size()}); whole(q, m); }
''' % '0x42000000u'
            es = []
            for fn, body in [('parse', 'M m = arb((int)vs_pick("mask", 0, 3)); std::vector<uint8_t> w(32); w.resize(img(m, w.data())); vs_assert(!P::match({w.data(), w.size()}), "match"); P p({w.data(), w.size()}); whole(p, m);'),
                             ('edit', 'M m = arb((int)vs_pick("mask", 0, 3)); std::vector<uint8_t> w(32); w.resize(img(m, w.data())); P p({w.data(), w.size()}); for (int i = 0; i < %d; i++) op((int)vs_pick("op", 0, NO - 1), p, m); whole(p, m); reparse(p, m);' % (depth - 1)),
                             ('hist', 'P p; M m; for (int i = 0; i < %d; i++) op((int)vs_pick("op", 0, NO - 1), p, m); whole(p, m); reparse(p, m);' % depth),
                             ('fresh', 'P p; M m; whole(p, m); reparse(p, m);')]:
                code += 'extern "C" void %s_%s() { %s vs_reach("end"); }\n' % (pk, fn, body)
                es.append(Entry('%s_%s' % (pk, fn), **R))
            chk.add(TU(pk, code, es, srcs=['%s/%s.cpp' % (d, snake(pk))], incs=[d]))
