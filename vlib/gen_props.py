"""Properties of the packets the generator emits (G properties)."""
import itertools
from .driver import TU, Entry
from . import pkt
from .pkt import Pkt, F, CIFN, COMMON, model, generate

R = dict(expect_reach=['end'])


def snake(n):
    import re
    return re.sub(r'(?<!^)(?=[A-Z])', '_', n).lower()


def tu(chk, p, d, entries, bounds='', name=None, extra=''):
    """module for one packet: entries = [(fn suffix, body, kwargs)]"""
    m = model(p)
    code = COMMON + '#include "%s.hpp"\n' % snake(p.name) + m + '\nusing namespace m_%s;\n' % p.name + extra
    es = []
    for fn, body, kw in entries:
        fn = '%s_%s' % (p.name, fn)
        code += 'extern "C" void %s() {\n%s\n}\n' % (fn, body)
        es.append(Entry(fn, **kw))
    chk.add(TU(name or p.name, code, es, srcs=['%s/%s.cpp' % (d, snake(p.name))], incs=[d], bounds=bounds))


CLS = (0xFFEEDD, 0x1234, 0x5678)
MIX = [('bandwidth', 'r'), ('reference_level', 'o'), ('gain', 'r'), ('temperature', 'o'), ('device_id', 'o'), ('range', 'o'), ('spatial_scan_type', 'o'), ('polarization', 'o'),
       ('cited_sid', 'o'), ('controllee_uuid', 'o')]
MIX2 = [('if_ref_frequency', 'o'), ('gain', 'o'), ('sample_rate', 'r'), ('timestamp_adjustment', 'o'), ('formatted_gps', 'o'), ('phase_offset', 'r'), ('snr_noise_figure', 'o'), ('aux_gain', 'r'),
        ('health_status', 'o'), ('bind', 'r'), ('controller_uuid', 'r'), ('track_id', 'o')]
CAMS = dict(permit_partial='true', permit_errors='true', req_v='required', req_x='optional', req_s='optional', req_w='true')


def alls(c, o): return [(n, o) for n in CIFN[c]]


def corpus(which=None):
    c = [Pkt('Mix', 'Context', MIX, cls=CLS, ts=('utc', 'picoseconds')),
         Pkt('MixTwo', 'ExtensionContext', MIX2, ts=('gps', 'samples'), tsm='coarse'),
         Pkt('OptZero', 'Context', alls(0, 'o')),
         Pkt('OptOne', 'Context', alls(1, 'o'), cls=CLS, tsm='coarse'),
         Pkt('OptTwo', 'ExtensionContext', alls(2, 'o'), ts=('other', 'free-running')),
         Pkt('ReqAll', 'Context', alls(0, 'r') + alls(1, 'r') + alls(2, 'r')),
         Pkt('CtlExec', 'Control', MIX, cls=CLS, ts=('utc', None), cam=dict(CAMS, action_mode='execute'), ids=dict(controllee_id='word', controller_id='uuid')),
         Pkt('CtlDry', 'ExtensionControl', MIX2, cam=dict(action_mode='dry-run', permit_warnings='true', req_s='optional'), ids=dict(controllee_id='uuid')),
         Pkt('CtlNone', 'Control', MIX2, cam=dict(action_mode='none', req_s='true'), ids=dict(controller_id='word'))]
    return [p for p in c if which is None or p.name in which]


def masks(p, pairs=True):
    """presence patterns of the optional fields: all of them when few, else none/all/singles/pairs and complements"""
    o = [i for i, (n, k) in enumerate(p.fields) if k == 'o']
    if len(o) <= 8:
        return sorted(sum(1 << i for i in s) for r in range(len(o) + 1) for s in itertools.combinations(o, r))
    full = sum(1 << i for i in o)
    m = {0, full} | {1 << i for i in o} | {full ^ (1 << i) for i in o}
    if pairs: m |= {1 << i | 1 << j for i, j in itertools.combinations(o, 2)} | {full ^ (1 << i | 1 << j) for i, j in itertools.combinations(o, 2)}
    return sorted(m)


def masktab(p, pairs=True):
    ms = masks(p, pairs)
    return 'constexpr uint64_t MASK[] = {%s}; constexpr int NM = %d;\n' % (', '.join('0x%xull' % m for m in ms), len(ms))


RECV = '''static M received(uint64_t mask, std::vector<uint8_t> &w) { M m = arb(mask); w.resize(MAXI); w.resize(img(m, w.data())); return m; }
'''


def G01(chk):
    T = chk.tier == 'thorough'
    ps = corpus()
    d = generate(chk, ps)
    for p in ps:
        tu(chk, p, d, [('parse', '''std::vector<uint8_t> w; M m = received(MASK[vs_pick("mask", 0, NM - 1)], w); std::vector<uint8_t> x(w.begin(), w.end());
  vs_assert(!P::match({x.data(), x.size()}), "match"); P q({x.data(), x.size()}); whole(q, m); vs_reach("end");''', R)], extra=masktab(p, T) + RECV)


def G02(chk):
    T = chk.tier == 'thorough'
    ps = corpus()
    d = generate(chk, ps)
    for p in ps:
        model(p)
        n = len(p.ops)
        ks = [0, 1] + ([2] if n <= (110 if T else 75) else []) + ([3] if T and n <= 40 else [])
        tu(chk, p, d, [('hist%d' % k, 'P p; M m = fresh(); for (int i = 0; i < %d; i++) op((int)vs_pick("op", 0, NO - 1), p, m); whole(p, m); vs_reach("end");' % k, R) for k in ks])


def G03(chk):
    T = chk.tier == 'thorough'
    ps = corpus(['Mix', 'MixTwo', 'OptZero', 'OptOne', 'OptTwo', 'CtlExec', 'CtlNone', 'CtlDry', 'ReqAll'])
    d = generate(chk, ps)
    for p in ps:
        tu(chk, p, d, [('edit', '''std::vector<uint8_t> w; M m = received(MASK[vs_pick("mask", 0, NM - 1)], w); P q({w.data(), w.size()});
  op((int)vs_pick("op", 0, NO - 1), q, m); image_is(q, m, "image", "image-size"); getters(q, m); reparse(q, m); vs_reach("end");''', R)], extra=masktab(p, False) + RECV)
