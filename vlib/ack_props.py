"""Acknowledge packets: warnings and errors (G10), state and matching (G11)."""
from .driver import TU, Entry
from . import pkt
from .pkt import Pkt, F, CIFN, COMMON, model, generate
from .gen_props import snake, R, CLS, MIX, MIX2, masks, masktab, RECV
from .match_props import fresh_bytes, CTORS, fits, reads

for _n in list(F):
    _c, _b = F[_n][:2]
    F[_n + '_warnings'] = (_c, _b, 'st', 4, 'WarningErrorFields')
    F[_n + '_errors'] = (3 + _c, _b, 'st', 4, 'WarningErrorFields')

AM = {'none': 0, 'dry-run': 1, 'execute': 2}
VP = 'vrtgen::packing::'


class Ack(Pkt):
    """acknowledgement of the control packet ctl"""
    def __init__(self, name, ctl, suffix, fields, ext=False):
        super().__init__(name, 'ExtensionAck' if ext else 'Ack', fields, cls=ctl.cls, ts=ctl.ts, cam=ctl.cam, ids=ctl.ids)
        self.ctl, self.base, self.cls_name = ctl, name, name + suffix
        self.name = name + suffix
        self.enable_only = False
        self.cam_ops = [('partial_action', 11, 1, 'bool'), ('scheduled_or_executed', 10, 1, 'bool')]
        self.am = AM[ctl.cam.get('action_mode', 'none')]

    def yaml(self): return '%s: !%s\n  responds_to: %s\n' % (self.base, self.kind, self.ctl.name)
    def hdr(self): return super().hdr() | 1 << 26

    def cam_word(self):
        w = super().cam_word() & ~(0x1f << 16)
        return w | self.ack_bits()

    def match_cond(self, cam):
        """C++ over the CAM word: it is one the class accepts"""
        mask = 1 << 31 | 1 << 29
        for k, b in (('controllee_id', 30), ('controller_id', 28)):
            if self.ids.get(k): mask |= 1 << b
        if 'action_mode' in self.cam: mask |= 3 << 23
        for k, b in Pkt.CAMBITS.items():
            if k[:4] != 'req_' and self.cam.get(k) in ('true', 'required'): mask |= 1 << b
        return '((%s ^ 0x%08xu) & 0x%08xu) == 0 && (%s)' % (cam, self.cam_word(), mask, self.ack_cond(cam))


class AckS(Ack):
    def __init__(self, name, ctl, ext=False):
        super().__init__(name, ctl, 'S', ctl.fields, ext)
        self.own = self.match_cond('m.cam')
    def ack_bits(self): return 1 << 18
    def ack_cond(self, cam): return '(%s >> 18 & 1) != 0' % cam


class AckVX(Ack):
    def __init__(self, name, ctl, ext=False):
        self.w, self.e = ctl.cam.get('req_w') in ('true', 'required'), ctl.cam.get('req_er') in ('true', 'required')
        fs = [n for n, o in ctl.fields]
        super().__init__(name, ctl, 'VX', [(n + s, 'o') for s, on in (('_warnings', self.w), ('_errors', self.e)) if on for n in fs], ext)
        for q, b in (('req_v', 20), ('req_x', 19)):
            if self.cam.get(q): self.cam_ops.append((q.replace('req', 'ack'), b, 1, 'bool'))
        self.cam_derived = self.w << 17 | self.e << 16
        self.own = self.match_cond('m.cam')
    def ack_bits(self): return 0
    def ack_cond(self, cam): return '(%s >> 19 & 3) != 0' % cam

    def img_code(self):
        nw = sum(s for _, _, s in self.prologue())
        cam = 4
        for n, k, s in self.prologue():
            if k == 'cam': break
            cam += s
        return '''  bool need[6] = {}; for (int i = 0; i < NF; i++) if (m.has[i]) need[FT[i].cif] = true;
  for (int h = 0; h < 2; h++) if (need[3 * h + 1] || need[3 * h + 2]) need[3 * h] = true;
  w32(o + %d, (m.cam & ~0x30000u) | (uint32_t)need[0] << 17 | (uint32_t)need[3] << 16);
  for (int c = 0; c < 6; c++) if (need[c]) { uint32_t w = 0; if (c %% 3 == 0) w = (uint32_t)need[c + 2] << 2 | (uint32_t)need[c + 1] << 1;
    for (int i = 0; i < NF; i++) if (FT[i].cif == c && m.has[i]) w |= 1u << FT[i].bit;
    w32(o + n, w); n += 4; }''' % cam

    def groups(self):
        """[(indicator getter, word index, field indices)] of the indicator words of the class"""
        r = []
        for h, (pre, on) in enumerate((('wif', self.w), ('eif', self.e))):
            for c in range(3):
                idx = [i for i, (n, o) in enumerate(self.fields) if F[n][0] == 3 * h + c]
                if on and (idx or c == 0): r.append(('%s_%d' % (pre, c), 3 * h + c, idx))
        return r

    def more_ops(self):
        r = []
        for g, c, idx in self.groups():
            all_ = [i for i, (n, o) in enumerate(self.fields) if F[n][0] // 3 == c // 3] if c % 3 == 0 else idx
            r.append((g, 'resetcif', ' '.join('m.has[%d] = false;' % i for i in all_) + ' p.reset_%s();' % g))
        return r

    def words(self):
        """C++: the indicator getters agree with the model"""
        s = 'static void words(P &p, const M &m) { (void)m; (void)p; bool need[6] = {}; for (int i = 0; i < NF; i++) if (m.has[i]) need[FT[i].cif] = true;\n'
        s += '  for (int h = 0; h < 2; h++) if (need[3 * h + 1] || need[3 * h + 2]) need[3 * h] = true;\n'
        for g, c, idx in self.groups():
            s += '  vs_assert(p.%s().has_value() == need[%d], "%s");\n' % (g, c, g)
            for i in idx: s += '  vs_assert((p.%s().has_value() && p.%s()->%s()) == m.has[%d], "%s:%s");\n' % (g, g, self.fields[i][0].rsplit('_', 1)[0], i, g, self.fields[i][0])
        if self.w: s += '  vs_assert(p.cam().ack_w() == need[0], "ack_w");\n'
        if self.e: s += '  vs_assert(p.cam().ack_er() == need[3], "ack_er");\n'
        return s + '}\n'


SMALL = [('bandwidth', 'r'), ('gain', 'o'), ('beam_width', 'o'), ('cited_sid', 'o')]
FULL = dict(permit_partial='true', req_v='optional', req_x='optional', req_s='true', req_w='true', req_er='true', action_mode='execute')


def controls(T=False):
    """[(control, ack name, ext)]"""
    every = lambda c, o: [(n, o) for n in CIFN[c]]
    return [(Pkt('AcBoth', 'Control', SMALL, cls=CLS, ts=('utc', 'picoseconds'), cam=FULL, ids=dict(controllee_id='word', controller_id='uuid')), 'AkBoth', False),
            (Pkt('AcWarn', 'ExtensionControl', SMALL, cam=dict(req_v='true', req_w='true', permit_errors='true', action_mode='dry-run'), ids=dict(controllee_id='uuid')), 'AkWarn', True),
            (Pkt('AcErr', 'Control', [('gain', 'o'), ('temperature', 'r')], cls=(0xC0FFEE, 0, 0xFFFF), ts=('gps', None), cam=dict(req_x='true', req_er='true', action_mode='execute')), 'AkErr', False),
            (Pkt('AcTwo', 'Control', [('operator_id', 'o'), ('bind', 'r'), ('range', 'r')], cam=dict(req_v='required', req_x='required', req_w='true', req_er='true', permit_warnings='true', action_mode='execute'), ids=dict(controller_id='word')), 'AkTwo', False),
            (Pkt('AcQuiet', 'Control', SMALL, cam=dict(req_v='required', req_x='optional', action_mode='execute')), 'AkQuiet', False),
            (Pkt('AcZero', 'Control', every(0, 'o'), cam=dict(req_x='true', req_w='true', req_er='true', action_mode='execute')), 'AkZero', False),
            (Pkt('AcOne', 'Control', every(1, 'o'), cam=dict(req_v='true', req_w='true', req_er='true', action_mode='execute')), 'AkOne', False),
            (Pkt('AcLast', 'Control', every(2, 'o'), cam=dict(req_x='true', req_w='true', req_er='true', action_mode='execute')), 'AkLast', True)]


def states():
    return [(Pkt('AsMix', 'Control', MIX, cls=CLS, ts=('utc', 'picoseconds'), cam=dict(FULL, req_w='optional'), ids=dict(controllee_id='word', controller_id='uuid')), 'AkMix', False),
            (Pkt('AsTwo', 'ExtensionControl', MIX2, ts=('any', 'any') if False else None, cam=dict(req_s='required', action_mode='dry-run', permit_warnings='true'), ids=dict(controllee_id='uuid')), 'AkMixTwo', True),
            (Pkt('AsNone', 'Control', MIX, ts=('other', 'samples'), cam=dict(req_s='true', action_mode='none'), ids=dict(controller_id='word')), 'AkNone', False),
            (Pkt('AsBare', 'Control', [('gain', 'o'), ('bandwidth', 'o')], cam=dict(req_s='optional', action_mode='execute', permit_partial='true')), 'AkBare', True)]


def yaml(cs): return '\n'.join(c.yaml() + '\n' + AckS(a, c, e).yaml() for c, a, e in cs)


VXFITS = '''static bool fits(const uint8_t *w, size_t cap) { size_t o = %d; if (o > cap) return false; uint32_t cam = (uint32_t)be(w + %d, 4), c[6] = {};
%s  return o <= cap; }
'''


def vx_fits(p, pl, cam):
    L = []
    for h, (on, bit) in enumerate(((p.w, 17), (p.e, 16))):
        if not on: continue
        L.append('  if (cam >> %d & 1) { if (o + 4 > cap) return false; c[%d] = (uint32_t)be(w + o, 4); o += 4;' % (bit, 3 * h))
        for c in (1, 2):
            if any(F[n][0] == 3 * h + c for n, _ in p.fields):
                L.append('    if (c[%d] >> %d & 1) { if (o + 4 > cap) return false; c[%d] = (uint32_t)be(w + o, 4); o += 4; }' % (3 * h, c, 3 * h + c))
        L.append('  }')
    for n, _ in p.fields: L.append('  if (c[%d] >> %d & 1) o += 4;' % (F[n][0], F[n][1]))
    return VXFITS % (pl, cam, '\n'.join(L) + '\n')


def atu(chk, p, d, entries, extra=''):
    code = COMMON + '#include "%s.hpp"\n' % snake(p.base) + model(p) + '\nusing namespace m_%s;\n' % p.name
    if isinstance(p, AckVX): code += p.words()
    code += extra
    es = []
    for fn, body, kw in entries:
        code += 'extern "C" void %s_%s() {\n%s\n}\n' % (p.name, fn, body)
        es.append(Entry('%s_%s' % (p.name, fn), **kw))
    chk.add(TU(p.name, code, es, srcs=['%s/%s.cpp' % (d, snake(p.base))], incs=[d]))


ANY = '''static bool whole_fits(std::span<const uint8_t> w) { if (w.size() < 4) return false; size_t n = ((size_t)w[2] << 8 | w[3]) * 4; if (n < 4 || n > w.size()) return false; n = vs_concretize(n);
  std::vector<uint8_t> v(n < N ? N : n); memcpy(v.data(), w.data(), n); return fits(v.data(), v.size()); }
static void build(std::span<const uint8_t> w) {
  bool ok = whole_fits(w);
  try { P q(w); vs_assert(ok, "accepted-short"); m_READS; auto d = q.data(); if (d.size()) (void)(*(volatile const uint8_t *)&d[d.size() - 1]);
  } catch (const std::out_of_range &) { vs_assert(!ok, "refused-complete"); } }
'''


def emask(p, T):
    """presence patterns of received packets to edit"""
    o = [i for i, (n, k) in enumerate(p.fields) if k == 'o']
    nf, full = len(o), sum(1 << i for i in o)
    em = masks(p) if nf <= 6 or T and nf <= 8 else sorted({0, full} | {1 << i for i in o} | {full ^ 1 << i for i in o}) if nf <= 12 or T else [0, full, full & 0x5555555555555555, full & 0xAAAAAAAAAAAAAAAA]
    return 'constexpr uint64_t EMASK[] = {%s}; constexpr int NE = %d;\n' % (', '.join('0x%xull' % x for x in em), len(em))


def G10(chk):
    T = chk.tier == 'thorough'
    cs = controls()
    d = generate(chk, yaml='\n'.join(c.yaml() + '\n' + AckVX(a, c, e).yaml() for c, a, e in cs))
    for c, a, e in cs:
        p = AckVX(a, c, e)
        model(p)
        n = len(p.ops)
        big = len(p.fields) > 12
        ks = [0, 1] + ([2] if n <= (130 if T else 60) else []) + ([3] if T and n <= 36 else [])
        es = [('hist%d' % k, 'P p; M m = fresh(); for (int i = 0; i < %d; i++) op((int)vs_pick("op", 0, NO - 1), p, m); whole(p, m); words(p, m); vs_reach("end");' % k, R) for k in ks]
        es.append(('parse', '''std::vector<uint8_t> w; M m = received(MASK[vs_pick("mask", 0, NM - 1)], w); std::vector<uint8_t> x(w.begin(), w.end());
  vs_assert(!P::match({x.data(), x.size()}) == (%s), "match"); P q({x.data(), x.size()}); words(q, m); whole(q, m); words(q, m); vs_reach("end");''' % p.own, R))
        es.append(('edit', '''std::vector<uint8_t> w; M m = received(EMASK[vs_pick("mask", 0, NE - 1)], w); P q({w.data(), w.size()});
  op((int)vs_pick("op", 0, NO - 1), q, m); image_is(q, m, "image", "image-size"); words(q, m); getters(q, m); reparse(q, m); vs_reach("end");''', R))
        extra = masktab(p, T and not big) + RECV + emask(p, T)
        atu(chk, p, d, es, extra)


def accept(p, b, offs, pl):
    """the class accepts exactly the packets that agree with its definition"""
    h = 0xFFF00000 & ~(1 << 25)
    cond = ['((h ^ 0x%08xu) & 0x%08xu) == 0' % (p.hdr(), h)]
    if p.cls: cond.append('be(w + %d, 3) == 0x%x && be(w + %d, 2) == 0x%x && be(w + %d, 2) == 0x%x' % (offs['class_id'] + 1, p.cls[0], offs['class_id'] + 4, p.cls[1], offs['class_id'] + 6, p.cls[2]))
    cond.append('(%s)' % p.match_cond('cam'))
    return '''constexpr uint8_t BASE[] = {%s};
static bool agrees(const uint8_t *w) { uint32_t h = (uint32_t)be(w, 4), cam = (uint32_t)be(w + %d, 4); return %s; }
''' % (', '.join(map(str, b)), offs['cam'], ' && '.join(cond)), '''std::vector<uint8_t> w(N); memcpy(w.data(), BASE, N); vs_bytes(w.data(), PL, "prologue"); w[2] = (uint8_t)(N / 4 >> 8); w[3] = (uint8_t)(N / 4);
  bool want = agrees(w.data()), got = !P::match({w.data(), w.size()}); vs_assert(got == want, "accept"); vs_reach("end");'''


def G11(chk):
    T = chk.tier == 'thorough'
    cs, vs = states(), [c for c in controls() if len(c[0].fields) < 12]
    d = generate(chk, yaml=yaml(cs))
    for c, a, e in cs:
        p = AckS(a, c, e)
        model(p)
        n = len(p.ops)
        ks = [0, 1] + ([2] if n <= (110 if T else 60) else [])
        es = [('hist%d' % k, 'P p; M m = fresh(); for (int i = 0; i < %d; i++) op((int)vs_pick("op", 0, NO - 1), p, m); whole(p, m); vs_reach("end");' % k, R) for k in ks]
        es.append(('parse', '''std::vector<uint8_t> w; M m = received(MASK[vs_pick("mask", 0, NM - 1)], w); std::vector<uint8_t> x(w.begin(), w.end());
  vs_assert(!P::match({x.data(), x.size()}) == (%s), "match"); P q({x.data(), x.size()}); whole(q, m); vs_reach("end");''' % p.own, R))
        es.append(('edit', '''std::vector<uint8_t> w; M m = received(EMASK[vs_pick("mask", 0, NE - 1)], w); P q({w.data(), w.size()});
  op((int)vs_pick("op", 0, NO - 1), q, m); image_is(q, m, "image", "image-size"); getters(q, m); reparse(q, m); vs_reach("end");''', R))
        atu(chk, p, d, es, masktab(p, False) + RECV + emask(p, T))
    d2 = generate(chk, yaml='\n'.join(c.yaml() + '\n' + AckVX(a, c, e).yaml() for c, a, e in vs), sub='vx')
    for p, dd in [(AckS(a, c, e), d) for c, a, e in cs] + [(AckVX(a, c, e), d2) for c, a, e in vs]:
        b, offs, pl = fresh_bytes(p)
        if isinstance(p, AckVX): b = b[:pl]
        decl, body = accept(p, b, offs, pl)
        code = COMMON + '#include <stdexcept>\n#include "%s.hpp"\nusing P = ns::packets::%s;\nconstexpr size_t N = %d, PL = %d;\n' % (snake(p.base), p.cls_name, len(b), pl) + decl
        code += (vx_fits(p, pl, offs['cam']) if isinstance(p, AckVX) else fits(p, pl))
        get = ''.join('{ auto &v = q.%s(); if (v.has_value()) { uint8_t b[4]; v->pack_into(b); } }' % n for n, _ in p.fields) if isinstance(p, AckVX) else reads(p).replace('(void)m;', '')
        code += ANY.replace('m_READS', get)
        code += 'extern "C" void %s_accept() { %s }\n' % (p.name, body)
        code += '''extern "C" void %s_any() { size_t n = (size_t)vs_pick("words", 1, N / 4 + %d) * 4; vs_buf w(n, "bytes"); w[2] = (uint8_t)(n / 4 >> 8); w[3] = (uint8_t)(n / 4);
  auto r = P::match(w.span()); if (!r) vs_assert(n >= N, "match-small"); build(w.span()); vs_reach("end"); }
extern "C" void %s_short() { size_t n = %s; vs_buf w(n, "bytes"); vs_assert((bool)P::match(w.span()), "match-short"); build(w.span()); vs_reach("end"); }
''' % (p.name, 5 if T else 3, p.name, '(size_t)vs_pick("bytes", 0, N - 1)' if T or len(b) <= 40 else '(size_t)vs_pick("bytes", 0, 19); if (n > 9) n = N - 1 - (n - 10)')
        chk.add(TU(p.name + '_rx', code, [Entry('%s_%s' % (p.name, e), **R) for e in ('accept', 'any', 'short')], srcs=['%s/%s.cpp' % (dd, snake(p.base))], incs=[dd], defs=['-DVS_NOTEXT']))
