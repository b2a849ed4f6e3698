"""Which packets a generated class accepts (G06) and what hostile bytes can do (G07)."""
from .driver import TU, Entry
from .pkt import Pkt, F, CIFN, COMMON, generate, model
from .gen_props import snake, R, CLS, MIX, MIX2, CAMS, corpus
from . import data_props


def definitions():
    small = [('bandwidth', 'r'), ('gain', 'o'), ('cited_sid', 'o')]
    one = [('bandwidth', 'o')]
    ps = [Pkt('MtPlain', 'Context', one),
          Pkt('MtCls', 'Context', small, cls=(0x00A1FF, 0xFFFF, 0x0001), ts=('utc', 'picoseconds')),
          Pkt('MtZero', 'Context', one, cls=(0xC0FFEE, 0, 0), ts=('other', None), tsm='fine'),
          Pkt('MtExt', 'ExtensionContext', small, ts=('gps', 'samples'), tsm='coarse'),
          Pkt('MtAny', 'Context', one, cls=CLS, ts=('any', 'any'), tsm='any'),
          Pkt('MtAnyInt', 'ExtensionContext', small, ts=('any', 'free-running'), tsm='fine'),
          Pkt('MtAnyFrac', 'Context', small, ts=(None, 'any')),
          Pkt('MtCtl', 'Control', small, cls=CLS, ts=('utc', 'samples'), cam=dict(CAMS, action_mode='execute'), ids=dict(controllee_id='word', controller_id='uuid')),
          Pkt('MtCtlDry', 'ExtensionControl', small, cam=dict(permit_warnings='true', req_x='required', req_s='optional', req_er='true', action_mode='dry-run'), ids=dict(controllee_id='uuid')),
          Pkt('MtCtlNone', 'Control', small, cls=(0x010203, 9, 7), ts=(None, 'picoseconds'), cam=dict(req_s='required', action_mode='none'), ids=dict(controller_id='word')),
          Pkt('MtCtlBare', 'ExtensionControl', one, ts=('any', 'any'), cam=dict(permit_partial='required', permit_errors='optional', req_v='true', action_mode='execute')),
          Pkt('MtCtlIds', 'Control', small, cls=CLS, cam=dict(req_v='optional', req_x='optional', req_s='required', req_w='true', req_er='true', action_mode='execute'), ids=dict(controllee_id='uuid', controller_id='word'))]
    D = data_props.Data
    ps += [D('MdRaw', sid=False), D('MdSid'), D('MdFull', trailer=['sample_frame: required'], cls=CLS, ts=('utc', 'picoseconds')),
           D('MdSpec', spec='spectrum', cls=(0x7F0080, 0x8000, 0xFFFE), ts=('gps', None)), D('MdTime', spec='time', trailer=['user_defined_a: enable_indicator'], ts=(None, 'samples')),
           D('MdAny', sid=False, cls=CLS, ts=('any', 'any'))]
    return ps


def fresh_bytes(p):
    """the bytes of a packet holding just what is required, as a list of ints (prologue values zero)"""
    b = list(p.hdr().to_bytes(4, 'big'))
    offs = {}
    for n, k, sz in p.prologue():
        offs[n] = len(b)
        if k == 'cls': b += [0, *p.cls[0].to_bytes(3, 'big'), *p.cls[1].to_bytes(2, 'big'), *p.cls[2].to_bytes(2, 'big')]
        elif k == 'cam': b += list(p.cam_word().to_bytes(4, 'big'))
        else: b += [0] * sz
    pl = len(b)
    if isinstance(p, data_props.Data):
        if p.trailer is not None: b += [0] * 4
    else:
        w = {0: 0, 1: 0, 2: 0}
        for n, o in p.fields:
            if o == 'r': w[F[n][0]] |= 1 << F[n][1]
        if w[1]: w[0] |= 2
        if w[2]: w[0] |= 4
        b += list(w[0].to_bytes(4, 'big'))
        for c in (1, 2):
            if w[c]: b += list(w[c].to_bytes(4, 'big'))
        if not p.enable_only:
            for n, o in p.fields:
                if o == 'r': b += [0] * F[n][3]
    return b, offs, pl


def oracle(p, offs, w='w'):
    """C++ expression: the prologue at w[] agrees with the definition"""
    ts = p.ts or (None, None)
    m = 0xFFF00000
    cond = []
    if p.command: m &= ~(1 << 25)        # reserved in command packets
    elif 'Context' in p.kind: m &= ~(1 << 26)   # reserved in context packets
    if ts[0] == 'any': m &= ~(3 << 22); cond.append('(h >> 22 & 3) != 0')
    if ts[1] == 'any': m &= ~(3 << 20); cond.append('(h >> 20 & 3) != 0')
    if p.tsm == 'any': m &= ~(1 << 24)
    cond.append('((h ^ 0x%08xu) & 0x%08xu) == 0' % (p.hdr(), m))
    if p.cls:
        cond.append('be(%s + %d, 3) == 0x%x && be(%s + %d, 2) == 0x%x' % (w, offs['class_id'] + 1, p.cls[0], w, offs['class_id'] + 6, p.cls[2]))
        if not p.anycode: cond.append('be(%s + %d, 2) == 0x%x' % (w, offs['class_id'] + 4, p.cls[1]))
    if p.command:
        cm = 1 << 31 | 1 << 29
        if p.ids.get('controllee_id'): cm |= 1 << 30
        if p.ids.get('controller_id'): cm |= 1 << 28
        if 'action_mode' in p.cam: cm |= 3 << 23
        for k, b in Pkt.CAMBITS.items():
            if p.cam.get(k) in ('true', 'required') and k not in ('req_w_', 'req_er_'): cm |= 1 << b
        cond.append('(((uint32_t)be(%s + %d, 4) ^ 0x%08xu) & 0x%08xu) == 0' % (w, offs['cam'], p.cam_word(), cm))
    return '[&] { uint32_t h = (uint32_t)be(%s, 4); return %s; }()' % (w, ' && '.join(cond).replace('&&', '&').replace('(', '(') if False else ' && '.join(cond))


def G06(chk):
    T = chk.tier == 'thorough'
    ps = definitions()
    d = generate(chk, ps)
    chk.bounds = '%d definitions covering every packet kind, class ids, timestamp kinds, timestamp modes, CAM settings and identifier formats; every prologue bit arbitrary, whole packet otherwise minimal' % len(ps)
    for p in ps:
        b, offs, pl = fresh_bytes(p)
        n = len(b)
        code = COMMON + '#include "%s.hpp"\nusing P = ns::packets::%s;\nconstexpr uint8_t BASE[] = {%s}; constexpr size_t N = %d, PL = %d;\n' % (snake(p.name), p.name, ', '.join(map(str, b)), n, pl)
        code += '''static void prologue(uint8_t *w) { memcpy(w, BASE, N); vs_bytes(w, PL, "prologue"); w[2] = (uint8_t)(N / 4 >> 8); w[3] = (uint8_t)(N / 4); }
extern "C" void %s_accept() { std::vector<uint8_t> w(N); prologue(w.data()); bool want = %s; bool got = !P::match({w.data(), w.size()}); vs_assert(got == want, "accept"); vs_reach("end"); }
''' % (p.name, oracle(p, offs, 'w.data()'))
        es = [Entry('%s_accept' % p.name, **R)]
        # a packet accepted by its class is parsed at the definition's offsets
        chk.add(TU(p.name, code, es, srcs=['%s/%s.cpp' % (d, snake(p.name))], incs=[d], defs=['-DVS_NOTEXT']))


# ------------------------------------------------------------------ hostile bytes (G07)
IDX = '''IdxList: !Context
  stream_id: !StreamID
  timestamp: !Timestamp
    integer: utc
  cif_0: !CIF0
    gain: optional
  cif_1: !CIF1
    beam_width: optional
    index_list: !IndexList
      entry_size: %d
    version_information: optional
'''


def fits(p, pl, idx=0):
    """C++ function: the contents announced by the packet lie within cap bytes"""
    L = ['static bool fits(const uint8_t *w, size_t cap) {', '  size_t o = %d; if (o > cap) return false;' % pl]
    if isinstance(p, data_props.Data):
        if p.trailer is not None: L.append('  o += 4;')
        return '\n'.join(L + ['  return o <= cap; }']) + '\n'
    enable_only = p.enable_only
    by = {c: [f for f in p.fields if F[f[0]][0] == c] for c in (0, 1, 2)}
    L.append('  [[maybe_unused]] uint32_t c0, c1 = 0, c2 = 0; if (o + 4 > cap) return false; c0 = (uint32_t)be(w + o, 4); o += 4;')
    for c in (1, 2):
        if by[c]: L.append('  if (%s) { if (o + 4 > cap) return false; c%d = (uint32_t)be(w + o, 4); o += 4; }' % ('true' if any(o == 'r' for _, o in by[c]) else '(c0 >> %d & 1) != 0' % c, c))
    if not enable_only:
        for n, o in p.fields:
            c, b, k, sz, a = F[n]
            L.append('  if (%s) o += %d;' % ('true' if o == 'r' else '(c%d >> %d & 1) != 0' % (c, b), sz))
    return '\n'.join(L + ['  return o <= cap; }']) + '\n'


CTORS = '''using P = m_%(n)s::P;
constexpr size_t N = %(N)d, PL = %(PL)d;
static void reads(P &q, const m_%(n)s::M &m) { %(reads)s }
static void poke(P &q) { m_%(n)s::M m = m_%(n)s::fresh(); m_%(n)s::op((int)vs_pick("op", 0, m_%(n)s::NO - 1), q, m); q.data(); }
// what has to be built: the announced size has arrived, and the announced contents, with missing required bytes read as zero, fit
static bool whole_fits(std::span<const uint8_t> w) { if (w.size() < 4) return false; size_t n = ((size_t)w[2] << 8 | w[3]) * 4; if (n < 4 || n > w.size()) return false; n = vs_concretize(n);
  std::vector<uint8_t> v(n < N ? N : n); memcpy(v.data(), w.data(), n); return fits(v.data(), v.size()); }
static bool build(std::span<const uint8_t> w, bool mutate) {
  bool ok = whole_fits(w);
  try { P q(w); vs_assert(ok, "accepted-short");
    reads(q, m_%(n)s::fresh()); auto d = q.data(); if (d.size()) (void)(*(volatile const uint8_t *)&d[d.size() - 1]); if (mutate) poke(q); return true;
  } catch (const std::out_of_range &) { vs_assert(!ok, "refused-complete"); return false; } }
// fewer bytes than the smallest packet of this class, down to none
extern "C" void %(n)s_short() { size_t n = (size_t)vs_pick("bytes", 0, N - 1); vs_buf w(n, "bytes"); vs_assert((bool)P::match(w.span()), "match-short"); build(w.span(), false); vs_reach("end"); }
// any bytes in a buffer of the announced size
extern "C" void %(n)s_any() { size_t n = (size_t)vs_pick("words", 1, %(hi)d) * 4; vs_buf w(n, "bytes"); w[2] = (uint8_t)(n / 4 >> 8); w[3] = (uint8_t)(n / 4);
  auto r = P::match(w.span()); if (!r) vs_assert(n >= N, "match-small"); build(w.span(), false); vs_reach("end"); }
// any bytes, followed by one operation
extern "C" void %(n)s_then() { size_t n = (size_t)vs_pick("words", %(hi)d - 1, %(hi)d) * 4; vs_buf w(n, "bytes"); w[2] = (uint8_t)(n / 4 >> 8); w[3] = (uint8_t)(n / 4);
  build(w.span(), true); vs_reach("end"); }
// a packet size beyond the bytes that arrived
extern "C" void %(n)s_lie() { constexpr size_t n = N + 4; vs_buf w(n, "bytes"); vs_assume(((size_t)w[2] << 8 | w[3]) * 4 > n); vs_assert((bool)P::match(w.span()), "match-lie");
  bool t = false; try { P q(w.span()); } catch (const std::out_of_range &) { t = true; } vs_assert(t, "lie-built"); vs_reach("end"); }
// bytes after the packet are not part of it
extern "C" void %(n)s_tail() { vs_buf w(N + 9, "bytes"); w[2] = (uint8_t)(N / 4 >> 8); w[3] = (uint8_t)(N / 4); vs_buf x(N); memcpy(x.data(), w.data(), N);
  bool a = (bool)P::match(w.span()), b = (bool)P::match(x.span()); vs_assert(a == b, "tail-match");
  if (fits(x.data(), N)) { P p(w.span()), q(x.span()); auto d = p.data(), e = q.data(); vs_assert(d.size() == e.size() && d.size() <= N, "tail-size"); if (d.size() == e.size()) vs_assert(same_bytes(d, e.data(), e.size()), "tail-bytes"); } vs_reach("end"); }
'''


def reads(p):
    """C++ that calls every getter"""
    if isinstance(p, data_props.Data):
        return '(void)m; ' + ' '.join(['(void)q.packet_count(); auto s = q.payload(); if (s.size()) { (void)*(volatile const uint8_t *)&s[0]; (void)*(volatile const uint8_t *)&s[s.size() - 1]; } (void)q.payload_size();']
                        + ['(void)q.%s();' % n for n, k, s in p.prologue()] + (['(void)q.trailer();'] if p.trailer else []))
    r = ['(void)m; (void)q.packet_count();']
    enable_only = p.enable_only
    r += ['(void)q.%s();' % n for n, k, s in p.prologue()]
    r += ['(void)q.%s%s();' % (n, '_enabled' if enable_only else '') for n, o in p.fields]
    return ' '.join(r)


def G07(chk):
    T = chk.tier == 'thorough'
    D = data_props.Data
    f4 = [('bandwidth', 'r'), ('gain', 'o'), ('temperature', 'o'), ('cited_sid', 'o')]
    ps = [Pkt('HsCtx', 'Context', [('gain', 'o'), ('temperature', 'r'), ('beam_width', 'o'), ('bind', 'o')], cls=CLS, ts=('utc', 'picoseconds')),
          Pkt('HsReq', 'ExtensionContext', [('reference_level', 'o'), ('range', 'r'), ('polarization', 'o'), ('controllee_uuid', 'r')], ts=(None, 'samples')),
          Pkt('HsBare', 'Context', [('device_id', 'o'), ('sample_rate', 'o')]),
          Pkt('HsCtl', 'Control', [('gain', 'r'), ('health_status', 'o'), ('controller_uuid', 'o')], cls=CLS, cam=dict(CAMS, action_mode='execute'), ids=dict(controllee_id='uuid', controller_id='word')),
          Pkt('HsNone', 'ExtensionControl', f4, cam=dict(req_s='required', action_mode='none'), ids=dict(controllee_id='word', controller_id='uuid')),
          D('HsRaw', sid=False), D('HsData', trailer=['sample_frame: required'], cls=CLS, ts=('utc', 'picoseconds'))]
    d = generate(chk, ps)
    chk.bounds = '%d definitions; every byte string shorter than the smallest packet; every byte string of an announced size from zero to twenty bytes beyond it; every packet size beyond what arrived; trailing bytes; index lists of up to %d bytes of entries' % (len(ps), 16)
    for p in ps:
        b, offs, pl = fresh_bytes(p)
        n = len(b)
        data = isinstance(p, D)
        m = data_props.datamodel(p, 8) if data else model(p)
        code = COMMON + '#include <stdexcept>\n#include "%s.hpp"\n' % snake(p.name) + m + fits(p, pl)
        code += CTORS % dict(n=p.name, N=n, PL=pl, reads=reads(p), hi=n // 4 + (3 if data else 5))
        es = [Entry('%s_%s' % (p.name, e), **R) for e in ('short', 'any', 'then', 'lie', 'tail')]
        chk.add(TU(p.name, code, es, srcs=['%s/%s.cpp' % (d, snake(p.name))], incs=[d], defs=['-DVS_NOTEXT']))
    idx_ctor(chk)


def idx_code(es):
    """model of a packet with an index list of entries of es bits"""
    t = 'uint%d_t' % es
    return COMMON + '''#include <stdexcept>
#include "idx_list.hpp"
using P = ns::packets::IdxList; using T = %s; using L = vrtgen::packing::IndexList<T>; constexpr size_t ES = sizeof(T);
constexpr size_t N = 4 + 4 + 4 + 8 + 8, PL = 12;
static bool fits(const uint8_t *w, size_t cap) {
  size_t o = PL; if (o + 8 > cap) return false; uint32_t c0 = (uint32_t)be(w + o, 4), c1 = (uint32_t)be(w + o + 4, 4); o += 8;
  if (c0 >> 23 & 1) o += 4; if (c1 >> 25 & 1) o += 4;
  if (o + 8 > cap) return false; size_t k = (size_t)be(w + o + 4, 4) & 0xFFFFF; o += 8 + (k * ES + 3) / 4 * 4;
  if (c1 >> 2 & 1) o += 4; return o <= cap; }
constexpr size_t KM = 6;
struct M { uint8_t cnt = 0, sid[4] = {}, ts[4] = {}, gain[4] = {}, bw[4] = {}, ver[4] = {}; bool hg = false, hb = false, hv = false; uint32_t total = 0, word = 0; size_t k = 0; T e[KM] = {}; };
static void w32(uint8_t *o, uint32_t v) { o[0] = (uint8_t)(v >> 24); o[1] = (uint8_t)(v >> 16); o[2] = (uint8_t)(v >> 8); o[3] = (uint8_t)v; }
static size_t img(const M &m, uint8_t *o) { size_t n = 4; memcpy(o + n, m.sid, 4); n += 4; memcpy(o + n, m.ts, 4); n += 4;
  w32(o + n, 2u | (uint32_t)m.hg << 23); w32(o + n + 4, 1u << 7 | (uint32_t)m.hb << 25 | (uint32_t)m.hv << 2); n += 8;
  if (m.hg) { memcpy(o + n, m.gain, 4); n += 4; } if (m.hb) { memcpy(o + n, m.bw, 4); n += 4; }
  w32(o + n, m.total); w32(o + n + 4, m.word); n += 8; size_t s = n;
  for (size_t i = 0; i < m.k; i++) for (size_t j = 0; j < ES; j++) o[n++] = (uint8_t)(m.e[i] >> 8 * (ES - 1 - j));
  while ((n - s) %% 4) o[n++] = 0;
  if (m.hv) { memcpy(o + n, m.ver, 4); n += 4; }
  w32(o, 4u << 28 | 1u << 25 | 1u << 22 | (uint32_t)m.cnt << 16 | (uint32_t)(n / 4)); return n; }
constexpr size_t MAXI = 28 + 12 + KM * ES + 4;
static void word(M &m) { m.word = (uint32_t)vs_sym("entry_size", 4) << 28 | (uint32_t)m.k; }
static void ent(M &m, size_t k) { m.k = k; for (size_t i = 0; i < KM; i++) m.e[i] = i < k ? (T)vs_sym("entry", ES * 8) : 0; }
static L list(const M &m) { L l; l.total_size(m.total); l.entry_size((vrtgen::packing::EntrySize)(m.word >> 28)); l.num_entries(m.word & 0xFFFFF); for (size_t i = 0; i < m.k; i++) l.entries().push_back(m.e[i]); return l; }
static bool same_list(const L &l, const M &m) { bool ok = l.total_size() == m.total && (uint32_t)l.entry_size() == m.word >> 28 && l.num_entries() == (m.word & 0xFFFFF) && l.entries().size() == m.k;
  if (ok) for (size_t i = 0; i < m.k; i++) ok &= l.entries()[i] == m.e[i]; return ok; }
constexpr int NO = 12;
static void op(int o, P &p, M &m, size_t KX) { switch (o) {
  case 0: ent(m, (size_t)vs_pick("k", 0, KX)); m.total = (uint32_t)vs_sym("total", 32); word(m); p.index_list(list(m)); break;
  case 1: ent(m, (size_t)vs_pick("k", 0, KX)); m.total = (uint32_t)vs_sym("total", 32); word(m); p.index_list() = list(m); break;
  case 2: ent(m, (size_t)vs_pick("k", 0, KX)); word(m); p.index_list().num_entries((uint32_t)m.k); p.index_list().entry_size((vrtgen::packing::EntrySize)(m.word >> 28)); p.index_list().entries().resize(m.k); for (size_t i = 0; i < m.k; i++) p.index_list().entries()[i] = m.e[i]; break;
  case 3: vs_bytes(m.bw, 4, "beam_width"); m.hb = true; { vrtgen::packing::BeamWidth b; b.unpack_from(m.bw); p.beam_width(b); } break;
  case 4: m.hb = false; p.reset_beam_width(); break;
  case 5: vs_bytes(m.ver, 4, "version"); m.hv = true; { vrtgen::packing::VersionInformation b; b.unpack_from(m.ver); p.version_information(b); } break;
  case 6: m.hv = false; p.reset_version_information(); break;
  case 7: vs_bytes(m.gain, 4, "gain"); m.hg = true; { vrtgen::packing::Gain b; b.unpack_from(m.gain); p.gain() = b; } break;
  case 8: m.hg = false; p.gain().reset(); break;
  case 9: vs_bytes(m.ver, 4, "version"); m.hv = true; { vrtgen::packing::VersionInformation b; b.unpack_from(m.ver); p.version_information() = b; } break;
  case 10: vs_bytes(m.sid, 4, "stream_id"); p.stream_id((uint32_t)be(m.sid, 4)); break;
  case 11: p.data(); break; } }
static void whole(P &p, const M &m) { uint8_t r[MAXI]; size_t n = img(m, r);
  for (int t = 0; t < 2; t++) { auto d = p.data(); vs_assert(d.size() == n, "image-size"); if (d.size() == n) vs_assert(same_bytes(d, r, n), "image"); vs_assert(p.size() == n, "size()");
    vs_assert(same_list(p.index_list(), m), "list"); vs_assert(p.beam_width().has_value() == m.hb && p.version_information().has_value() == m.hv && p.gain().has_value() == m.hg, "presence");
    if (m.hb && p.beam_width()) vs_assert(same_img(*p.beam_width(), m.bw, 4), "beam_width"); if (m.hv && p.version_information()) vs_assert(same_img(*p.version_information(), m.ver, 4), "version"); if (m.hg && p.gain()) vs_assert(same_img(*p.gain(), m.gain, 4), "gain"); } }
static void reparse(P &p, const M &m) { auto d = p.data(); vs_buf w(d.size()); for (size_t i = 0; i < w.n; i++) w[i] = d[i]; vs_assert(!P::match(w.span()), "match-own"); P q(w.span()); whole(q, m); }
''' % t


def idx_ctor(chk):
    """hostile bytes for a packet with an index list"""
    for es in (8, 32):
        d = generate(chk, yaml=IDX % es, sub='idx%d' % es)
        code = idx_code(es) + '''
static bool whole_fits(std::span<const uint8_t> w) { if (w.size() < 4) return false; size_t n = ((size_t)w[2] << 8 | w[3]) * 4; if (n < 4 || n > w.size()) return false; n = vs_concretize(n);
  std::vector<uint8_t> v(n < N ? N : n); memcpy(v.data(), w.data(), n); return fits(v.data(), v.size()); }
static bool build(std::span<const uint8_t> w) { bool ok = whole_fits(w); try { P q(w); vs_assert(ok, "accepted-short"); (void)q.beam_width(); (void)q.version_information(); (void)q.gain(); (void)q.index_list(); auto d = q.data(); (void)d; return true; }
  catch (const std::out_of_range &) { vs_assert(!ok, "refused-complete"); return false; } }
extern "C" void Idx%(es)d_short() { size_t n = (size_t)vs_pick("bytes", 0, N - 1); vs_buf w(n, "bytes"); vs_assert((bool)P::match(w.span()), "match-short"); build(w.span()); vs_reach("end"); }
extern "C" void Idx%(es)d_any() { size_t n = (size_t)vs_pick("words", 1, N / 4 + 5) * 4; vs_buf w(n, "bytes"); w[2] = (uint8_t)(n / 4 >> 8); w[3] = (uint8_t)(n / 4);
  auto r = P::match(w.span()); if (!r) vs_assert(n >= N, "match-small"); build(w.span()); vs_reach("end"); }
extern "C" void Idx%(es)d_then() { size_t n = (size_t)vs_pick("words", N / 4 + 1, N / 4 + 3) * 4; vs_buf w(n, "bytes"); w[2] = (uint8_t)(n / 4 >> 8); w[3] = (uint8_t)(n / 4);
  try { P q(w.span()); M m; op((int)vs_pick("op", 0, NO - 1), q, m, 3); q.data(); } catch (const std::out_of_range &) { vs_assert(!fits(w.data(), n), "refused-complete"); } vs_reach("end"); }
''' % dict(es=es)
        chk.add(TU('Idx%d' % es, code, [Entry('Idx%d_%s' % (es, e), **R) for e in ('short', 'any', 'then')], srcs=[d + '/idx_list.cpp'], incs=[d], defs=['-DVS_NOTEXT']))


def G08(chk):
    """index lists of any length among other fields"""
    T = chk.tier == 'thorough'
    K = 6 if T else 4
    chk.bounds = 'index lists of 0 to %d entries of 8, 16 and 32 bits between optional fields; every history of up to %d operations (set, assign, edit through the reference, add and remove fields before and after); lists of up to 66000 entries (32-bit ones: to the largest packet) with arbitrary first and last entries, under histories of 2 such operations with a transmission between (thorough: 3); every received packet' % (K, 3 if T else 2)
    for es in (8, 16, 32):
        d = generate(chk, yaml=IDX % es, sub='idx%d' % es)
        code = idx_code(es) + '''
static M arb() { M m; m.cnt = (uint8_t)vs_sym("count", 4); vs_bytes(m.sid, 4, "sid"); vs_bytes(m.ts, 4, "ts"); unsigned k = (unsigned)vs_pick("present", 0, 7); m.hg = k & 1; m.hb = k & 2; m.hv = k & 4;
  vs_bytes(m.gain, 4, "gain"); vs_bytes(m.bw, 4, "bw"); vs_bytes(m.ver, 4, "ver"); ent(m, (size_t)vs_pick("k", 0, %(K)d)); m.total = (uint32_t)vs_sym("total", 32); word(m); return m; }
extern "C" void Idx%(es)d_parse() { M m = arb(); uint8_t r[MAXI]; size_t n = img(m, r); vs_buf w(n); memcpy(w.data(), r, n); vs_assert(!P::match(w.span()), "match"); P q(w.span()); whole(q, m); vs_reach("end"); }
extern "C" void Idx%(es)d_edit() { M m = arb(); uint8_t r[MAXI]; size_t n = img(m, r); vs_buf w(n); memcpy(w.data(), r, n); P q(w.span()); op((int)vs_pick("op", 0, NO - 1), q, m, %(K)d); whole(q, m); reparse(q, m); vs_reach("end"); }
extern "C" void Idx%(es)d_hist() { P p; M m; int h = %(H)d; for (int i = 0; i < h; i++) op((int)vs_pick("op", 0, NO - 1), p, m, %(K)d); whole(p, m); reparse(p, m); vs_reach("end"); }
''' % dict(es=es, K=K, H=3 if T else 2)
        big = '''
struct K { std::vector<T> e; bool hb = false, hv = false; };
static std::vector<T> longs(size_t n) { std::vector<T> e(n); for (size_t i = 0; i < n; i++) e[i] = (T)(i * 7 + (i >> 8) + 1); if (n) { e[0] = (T)vs_sym("first", ES * 8); e[n - 1] = (T)vs_sym("last", ES * 8); } return e; }
static void sure(P &p, const K &k) {
  size_t lw = (k.e.size() * ES + 3) / 4, n = 20 + 4 * k.hb + 8 + 4 * lw + 4 * k.hv; vs_buf r(n); uint8_t *o = r.data(); memset(o, 0, n);
  w32(o, 4u << 28 | 1u << 25 | 1u << 22 | (uint32_t)(n / 4)); w32(o + 12, 2u); w32(o + 16, 1u << 7 | (uint32_t)k.hb << 25 | (uint32_t)k.hv << 2); size_t a = 20; if (k.hb) { w32(o + a, 0x12345678); a += 4; }
  w32(o + a, 77); w32(o + a + 4, (uint32_t)(ES == 1 ? 1 : ES == 2 ? 2 : 4) << 28 | (uint32_t)k.e.size()); a += 8; for (size_t i = 0; i < k.e.size(); i++) for (size_t j = 0; j < ES; j++) o[a + i * ES + j] = (uint8_t)(k.e[i] >> 8 * (ES - 1 - j)); a += 4 * lw; if (k.hv) w32(o + a, 0x87654321);
  auto d = p.data(); vs_assert(d.size() == n && p.size() == n, "image-size"); if (d.size() == n) vs_assert(same_bytes(d, o, n), "image");
  vs_assert(p.index_list().entries() == k.e && p.index_list().num_entries() == k.e.size() && p.index_list().total_size() == 77, "list"); vs_assert(p.beam_width().has_value() == k.hb && p.version_information().has_value() == k.hv, "presence");
  uint8_t b[4]; if (k.hb && p.beam_width()) { p.beam_width()->pack_into(b); vs_assert(be(b, 4) == 0x12345678, "beam_width"); } if (k.hv && p.version_information()) { p.version_information()->pack_into(b); vs_assert(be(b, 4) == 0x87654321, "version"); } }
static void act(P &p, K &k, size_t most) { uint8_t b[4]; switch (vs_pick("op", 0, 3)) {
  case 0: case 1: { static const size_t B[] = {3, 257, 4099, most}; bool ref = vs_pick("by-reference", 0, 1); k.e = longs(B[vs_pick("n", 0, 3)]); L l; l.total_size(77); l.entry_size((vrtgen::packing::EntrySize)(ES == 1 ? 1 : ES == 2 ? 2 : 4)); l.num_entries(k.e.size()); l.entries(k.e); if (ref) p.index_list() = l; else p.index_list(l); break; }
  case 2: k.hb = !k.hb; if (k.hb) { w32(b, 0x12345678); vrtgen::packing::BeamWidth v; v.unpack_from(b); p.beam_width(v); } else p.reset_beam_width(); break;
  case 3: k.hv = !k.hv; if (k.hv) { w32(b, 0x87654321); vrtgen::packing::VersionInformation v; v.unpack_from(b); p.version_information(v); } else p.reset_version_information(); break; } }
extern "C" void Idx%(es)d_long() { P p; K k; size_t most = ES == 4 ? (65535 * 4 - 36) / ES : 66001; p.index_list().total_size(77); p.index_list().entry_size((vrtgen::packing::EntrySize)(ES == 1 ? 1 : ES == 2 ? 2 : 4));
  k.e = longs(most); { L l; l.total_size(77); l.entry_size((vrtgen::packing::EntrySize)(ES == 1 ? 1 : ES == 2 ? 2 : 4)); l.num_entries(most); l.entries(k.e); p.index_list(l); }
  for (int i = 0; i < %(H)d; i++) act(p, k, most); sure(p, k); auto d = p.data(); vs_buf w(d.size()); for (size_t i = 0; i < w.n; i++) w[i] = d[i]; vs_assert(!P::match(w.span()), "match-own"); P q(w.span()); sure(q, k); act(q, k, most); sure(q, k); vs_reach("end"); }
''' % dict(es=es, H=2 if T else 1)
        chk.add(TU('IdxL%d' % es, idx_code(es) + big, [Entry('Idx%d_long' % es, **R)], srcs=[d + '/idx_list.cpp'], incs=[d]))
        chk.add(TU('IdxH%d' % es, code, [Entry('Idx%d_%s' % (es, e), **R) for e in ('parse', 'edit', 'hist')], srcs=[d + '/idx_list.cpp'], incs=[d]))
