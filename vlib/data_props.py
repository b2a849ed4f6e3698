"""Data packets (G04)."""
from .driver import TU, Entry
from .pkt import Pkt, COMMON, api, IT, generate
from .gen_props import snake, CLS, R

# user-defined trailer subfields: (name, kind, high bit, width, enable high bit)


class Data(Pkt):
    def __init__(self, name, trailer=None, spec=None, users=(), **kw):
        super().__init__(name, 'Data', **kw)
        self.trailer, self.spec, self.users = trailer, spec, users

    def yaml(self):
        if self.ytext is not None: return self.ytext
        y = ['%s: !Data' % self.name]
        if self.sid: y.append('  stream_id: !StreamID')
        if self.cls:
            o = '%06X' % self.cls[0]
            y += ['  class_id: !ClassID', '    oui: %s-%s-%s' % (o[:2], o[2:4], o[4:]), '    information_code: 0x%X' % self.cls[1], '    packet_code: 0x%X' % self.cls[2]]
        if self.ts:
            y.append('  timestamp: !Timestamp')
            if self.ts[0]: y.append('    integer: ' + self.ts[0])
            if self.ts[1]: y.append('    fractional: ' + self.ts[1])
        if self.trailer is not None:
            y.append('  trailer: !Trailer')
            y += ['    ' + t for t in self.trailer]
        if self.spec: y.append('  spectrum_or_time: ' + self.spec)
        return '\n'.join(y) + '\n'

    def hdr(self):
        ts = self.ts or (None, None)
        sf = self.trailer and any('sample_frame' in t for t in self.trailer)
        return (bool(self.sid) << 28 | bool(self.cls) << 27 | (self.trailer is not None) << 26 | bool(sf or self.spec == 'spectrum') << 25 | (self.spec == 'spectrum') << 24
                | self.TSI[ts[0]] << 22 | self.TSF[ts[1]] << 20)


def datamodel(p, NMAX):
    pro = p.prologue()
    tr = p.trailer is not None
    L = []
    A = L.append
    A('namespace m_%s {\nusing P = %s::packets::%s;\nconstexpr size_t NMAX = %d;' % (p.name, p.ns, p.name, NMAX))
    A('struct M { uint8_t cnt = 0; uint8_t pro[%d][8] = {}; size_t n = 0; uint8_t pay[NMAX + 4] = {}; uint8_t tr[4] = {}; };' % (len(pro) + 1))
    A('constexpr int NP = %d; constexpr size_t MAXI = 4 + %d + NMAX + 4 + 4;' % (len(pro), sum(x[2] for x in pro)))
    A('static size_t img(const M &m, uint8_t *o) { size_t n = 4;')
    for i, (n, k, sz) in enumerate(pro): A('  for (int i = 0; i < %d; i++) o[n + i] = m.pro[%d][i]; n += %d;' % (sz, i, sz))
    A('  for (size_t i = 0; i < (m.n + 3) / 4 * 4; i++) o[n++] = i < m.n ? m.pay[i] : 0;')
    if tr: A('  for (int i = 0; i < 4; i++) o[n++] = m.tr[i];')
    A('  uint32_t w = 0x%08xu | (uint32_t)m.cnt << 16 | (uint32_t)(n / 4); o[0] = (uint8_t)(w >> 24); o[1] = (uint8_t)(w >> 16); o[2] = (uint8_t)(w >> 8); o[3] = (uint8_t)w; return n; }' % p.hdr())
    A('static M fresh() { M m;')
    for i, (n, k, sz) in enumerate(pro):
        if k == 'cls': A('  { const uint8_t c[8] = {0, %s}; memcpy(m.pro[%d], c, 8); }' % (', '.join('0x%x' % x for x in [*p.cls[0].to_bytes(3, 'big'), *p.cls[1].to_bytes(2, 'big'), *p.cls[2].to_bytes(2, 'big')]), i))
        if n == 'stream_id' and p.sid_value: A('  { const uint8_t c[4] = {%s}; memcpy(m.pro[%d], c, 4); }' % (', '.join(map(str, p.sid_value.to_bytes(4, 'big'))), i))
    A('  return m; }')
    A('static void sym_pro(M &m, int i, const char *nm) { switch (i) {')
    for i, (n, k, sz) in enumerate(pro):
        A('  case %d: %s break;' % (i, 'm.pro[%d][0] = (uint8_t)(vs_sym(nm, 5) << 3);' % i if k == 'cls' else 'vs_bytes(m.pro[%d], %d, nm);' % (i, sz)))
    A('  } }')
    A('static void sym_pay(M &m, size_t n) { m.n = n; memset(m.pay, 0, sizeof m.pay); if (n) vs_bytes(m.pay, n, "payload"); }')
    A('static M arb(size_t n) { M m = fresh(); m.cnt = (uint8_t)vs_sym("count", 4); for (int i = 0; i < NP; i++) sym_pro(m, i, "pro"); sym_pay(m, n); vs_bytes(m.tr, 4, "trailer"); return m; }')
    ops = ['m.cnt = (uint8_t)vs_sym("count", 4); p.packet_count(m.cnt);',
           'sym_pay(m, (size_t)vs_pick("n", 0, NMAX)); { vs_buf b(m.n); for (size_t i = 0; i < m.n; i++) b[i] = m.pay[i]; p.payload(b.span()); }']
    for i, (n, k, sz) in enumerate(pro):
        if k == 'u': ops.append('sym_pro(m, %d, "%s"); { %s p.%s(v); }' % (i, n, api('u', sz, None, 'm.pro[%d]' % i, 'v'), n))
        else: ops.append('sym_pro(m, %d, "pad"); p.pad_bits(m.pro[%d][0] >> 3);' % (i, i))
    g = ['vs_assert(p.packet_count() == m.cnt, "get:packet_count");',
         'vs_assert(p.payload_size() == (m.n + 3) / 4 * 4 && p.payload().size() == p.payload_size(), "payload-size");',
         'if (p.payload().size() >= m.n) vs_assert(same_bytes(p.payload(), m.pay, m.n), "payload");']
    for i, (n, k, sz) in enumerate(pro):
        if k == 'u': g.append('vs_assert(p.%s() == (%s)be(m.pro[%d], %d), "get:%s");' % (n, IT[sz], i, sz, n))
        else: g.append('vs_assert(p.pad_bits() == (m.pro[%d][0] >> 3) && p.class_id().oui() == 0x%xu && p.class_id().information_code() == 0x%x && p.class_id().packet_code() == 0x%x, "get:class_id");' % (i, *p.cls))
    if tr:
        ops.append('vs_bytes(m.tr, 4, "trailer"); p.trailer().unpack_from(m.tr);')
        g.append('{ uint8_t b[4]; p.trailer().pack_into(b); vs_assert(be(b, 4) == be(m.tr, 4), "get:trailer"); }')
        def setb(hi, w, v): return '{ uint32_t t = (uint32_t)be(m.tr, 4); t = (t & ~(0x%xu << %d)) | ((uint32_t)(%s) << %d); for (int i = 0; i < 4; i++) m.tr[i] = (uint8_t)(t >> (24 - 8 * i)); }' % ((1 << w) - 1, hi - w + 1, v, hi - w + 1)
        for n, ty, hi, w, ehi in p.users:
            full = (1 << w) - 1
            val = 'vs_bool("v")' if ty == 'bool' else '(uint32_t)vs_range("v", 0, %d)' % (ty[1] - 1)
            cast = 'v' if ty == 'bool' else '(%s)v' % ty[0].replace('NS', '%s' % p.ns)
            ops.append('{ auto v = %s; %s %s p.trailer().%s(%s); }' % (val, setb(hi, w, 'v'), setb(ehi, w, full), n, cast))
            ops.append('%s %s p.trailer().reset_%s();' % (setb(hi, w, 0), setb(ehi, w, 0), n))
            g.append('{ uint32_t t = (uint32_t)be(m.tr, 4); bool en = (t >> %d & %d) == %d; auto o = p.trailer().%s(); vs_assert(o.has_value() == en, "has:%s"); if (en && o) vs_assert((uint32_t)*o == (t >> %d & %d), "get:%s"); }'
                     % (ehi - w + 1, full, full, n, n, hi - w + 1, full, n))
    A('constexpr int NO = %d;\nstatic void op(int k, P &p, M &m) { switch (k) {' % len(ops))
    for i, t in enumerate(ops): A('  case %d: %s break;' % (i, t))
    A('  } }')
    A('static void getters(P &p, const M &m) {\n  %s }' % '\n  '.join(g))
    A('''static void image_is(P &p, const M &m, const char *id, const char *ids) { uint8_t r[MAXI]; size_t n = img(m, r); auto d = p.data();
  vs_assert(d.size() == n, ids); if (d.size() == n) vs_assert(same_bytes(d, r, n), id); }
static void whole(P &p, const M &m) { getters(p, m); image_is(p, m, "image", "image-size"); vs_assert(p.size() == p.data().size(), "size()"); vs_assert((size_t)p.header().packet_size() * 4 == p.data().size(), "packet_size");
  getters(p, m); image_is(p, m, "image-again", "image-size-again"); }
static void reparse(P &p, const M &m) { auto d = p.data(); std::vector<uint8_t> w(d.begin(), d.end()); vs_assert(!P::match({w.data(), w.size()}), "match-own"); P q({w.data(), w.size()});
  M k = m; k.n = (m.n + 3) / 4 * 4; getters(q, k); image_is(q, k, "reparse-image", "reparse-size"); }
}
using namespace m_%s;''' % p.name)
    p.ops = ops
    return '\n'.join(L)


def defs():
    return [Data('RawData', sid=False, spec='time'),
            Data('FullData', cls=CLS, ts=('utc', 'picoseconds'), trailer=['sample_frame: optional']),
            Data('SpecData', ts=('gps', None), spec='spectrum'),
            Data('TrailData', sid=False, ts=(None, 'samples'), trailer=['user_defined_mode: [alpha, beta, gamma]', 'user_defined_lock: enable_indicator', 'user_defined_hot: enable_indicator'],
                 users=[('user_defined_mode', ('NS::packets::trail_data::enums::user_defined_mode', 3), 9, 2, 21), ('user_defined_lock', 'bool', 10, 1, 22), ('user_defined_hot', 'bool', 11, 1, 23)])]


# payloads up to the largest packet: every byte has a value of its own place, the first and the last are arbitrary
LONG = """
static void fill(M &m, size_t n) { memset(m.pay, 0, sizeof m.pay); m.n = n; for (size_t i = 0; i < n; i++) m.pay[i] = (uint8_t)(i * 7 + (i >> 8) + (i >> 16)); if (n) { m.pay[0] = vs_u8("first"); m.pay[n - 1] = vs_u8("last"); } }
static void give(P &p, const M &m) { vs_buf b(m.n); for (size_t i = 0; i < m.n; i++) b[i] = m.pay[i]; p.payload(b.span()); }
extern "C" void NAME_long() {
  static const size_t A[] = {5, NMAX}, B[] = {1020, 1021, 65533, NMAX, 3}; P p; static M m; m = fresh(); fill(m, A[vs_pick("before", 0, 1)]); give(p, m);
  if (vs_bool("look-between")) p.data();
  fill(m, B[vs_pick("now", 0, 4)]); give(p, m); whole(p, m); reparse(p, m); vs_reach("end"); }
extern "C" void NAME_far() {
  static const size_t B[] = {1020, 65532, NMAX}; static M m; m = fresh(); m.cnt = (uint8_t)vs_sym("count", 4); for (int i = 0; i < NP; i++) sym_pro(m, i, "pro"); fill(m, B[vs_pick("words", 0, 2)]); vs_bytes(m.tr, 4, "trailer");
  std::vector<uint8_t> w(MAXI); w.resize(img(m, w.data())); vs_assert(!P::match({w.data(), w.size()}), "match"); P q({w.data(), w.size()}); whole(q, m); reparse(q, m); vs_reach("end"); }
"""


def G04(chk):
    T = chk.tier == 'thorough'
    ps = defs()
    d = generate(chk, ps)
    N = 13 if T else 9
    for p in ps:
        code = COMMON + '#include "%s.hpp"\n' % snake(p.name) + datamodel(p, N)
        es = []
        for fn, body in [('parse', '''M m = arb(4 * (size_t)vs_pick("words", 0, NMAX / 4)); std::vector<uint8_t> w(MAXI); w.resize(img(m, w.data())); std::vector<uint8_t> x(w.begin(), w.end());
  vs_assert(!P::match({x.data(), x.size()}), "match"); P q({x.data(), x.size()}); whole(q, m);'''),
                         ('edit', '''M m = arb(4 * (size_t)vs_pick("words", 0, NMAX / 4)); std::vector<uint8_t> w(MAXI); w.resize(img(m, w.data())); P q({w.data(), w.size()});
  for (int i = 0; i < %d; i++) op((int)vs_pick("op", 0, NO - 1), q, m); whole(q, m); reparse(q, m);''' % (2 if T else 1))] + [
                         ('hist%d' % k, 'P p; M m = fresh(); for (int i = 0; i < %d; i++) op((int)vs_pick("op", 0, NO - 1), p, m); whole(p, m);' % k) for k in ((0, 1, 2, 3) if T else (0, 1, 2))]:
            code += '\nextern "C" void %s_%s() { %s vs_reach("end"); }\n' % (p.name, fn, body)
            es.append(Entry('%s_%s' % (p.name, fn), **R))
        chk.add(TU(p.name, code, es, srcs=['%s/%s.cpp' % (d, snake(p.name))], incs=[d]))
        room = 65535 * 4 - 4 - sum(x[2] for x in p.prologue()) - (4 if p.trailer is not None else 0)
        chk.add(TU(p.name + 'L', COMMON + '#include "%s.hpp"\n' % snake(p.name) + datamodel(p, room) + LONG.replace('NAME', p.name), [Entry('%s_%s' % (p.name, e), **R) for e in ('long', 'far')], srcs=['%s/%s.cpp' % (d, snake(p.name))], incs=[d]))
    chk.bounds = 'payloads of 0 to %d arbitrary bytes with histories of up to %d operations and one (thorough: two) on every received packet; payloads of 1020 bytes to the largest a packet can hold with arbitrary first and last bytes, replacing ones of 0 bytes to the largest' % (N, 3 if T else 2)
