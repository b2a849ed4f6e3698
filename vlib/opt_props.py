"""Options and spellings of the definition language (G09): each definition below is written out by hand, its packet by the model."""
import contextlib
from .driver import TU, Entry
from . import pkt
from .pkt import Pkt, F, COMMON, generate, model
from .gen_props import snake, R, RECV, CLS, masktab
from .data_props import Data, datamodel
from .match_props import fresh_bytes, oracle
from .ack_props import Ack, AckS, AckVX


@contextlib.contextmanager
def fields(over):
    """field table with some types replaced"""
    old = {k: F[k] for k in over}
    F.update(over)
    try: yield
    finally: F.update(old)


DIFI = dict(reference_level=(0, 24, 'st', 4, 'difi::ReferenceLevel'), buffer_size=(1, 1, 'st', 12, 'difi::BufferSize'))


def mk(text, p, over=None, **kw):
    p.ytext = text
    p.over = over or {}
    for k, v in kw.items(): setattr(p, k, v)
    return p


def hdr(p): return snake(getattr(p, 'base', p.name))


def definitions():
    r = []
    # constants and spellings of the prologue
    r.append(mk('''OdHex: !Context
  timestamp: !Timestamp
    fractional: Picoseconds
    integer: UTC
  class_id: !ClassID
    packet_code: 513
    oui: a1-b2-C3
    information_code: 65535
  tsm: COARSE
  cif_0: !CIF0
    gain: Optional
    bandwidth: REQUIRED
  stream_id: !StreamID 0xA1B2C3D4
''', Pkt('OdHex', 'Context', [('bandwidth', 'r'), ('gain', 'o')], cls=(0xA1B2C3, 65535, 513), ts=('utc', 'picoseconds'), tsm='coarse'), sid_value=0xA1B2C3D4))
    r.append(mk('''OdDec: !ExtensionContext
  stream_id: !StreamID 305419896
  timestamp: !Timestamp
    integer: Other
    fractional: none
  cif_2: !CIF2
    track_id: optional
  cif_0: !CIF0
    temperature: optional
''', Pkt('OdDec', 'ExtensionContext', [('temperature', 'o'), ('track_id', 'o')], ts=('other', None)), sid_value=305419896))
    r.append(mk('''OdFrac: !Context
  stream_id: !StreamID
  class_id: !ClassID
    oui: 00-12-a3
    information_code: 0x00FE
    packet_code: 0
  timestamp: !Timestamp
    integer: NONE
    fractional: Free-Running
  tsm: Fine
  cif_0: !CIF0
  cif_1: !CIF1
    range: optional
''', Pkt('OdFrac', 'Context', [('range', 'o')], cls=(0x12A3, 0xFE, 0), ts=(None, 'free-running'), tsm='fine')))
    r.append(mk('''OdNoTs: !Context
  timestamp: !Timestamp
    integer: none
    fractional: none
  cif_0: !CIF0
    change_indicator: required
    over_range_count: required
''', Pkt('OdNoTs', 'Context', [('over_range_count', 'r')])))
    r.append(mk('OdBare: !Context\n', Pkt('OdBare', 'Context')))
    r.append(mk('OdBareExt: !ExtensionContext\n', Pkt('OdBareExt', 'ExtensionContext')))
    r.append(mk('OdGap: !Context\n  cif_0: !CIF0\n  cif_2: !CIF2\n    mode_id: required\n', Pkt('OdGap', 'Context', [('mode_id', 'r')])))
    # DIFI types
    dif = [('bandwidth', 'o'), ('reference_level', 'r'), ('gain', 'o'), ('health_status', 'o'), ('buffer_size', 'r')]
    r.append(mk('''OdDifi: !Context
  stream_id: !StreamID
  class_id: !ClassID
    oui: 6A-62-1E
    packet_code: 1
    information_code: 0
  timestamp: !Timestamp
    integer: utc
    fractional: picoseconds
  cif_0: !CIF0
    bandwidth: optional
    reference_level: !DIFI1p2ReferenceLevel
      mode: required
    gain: optional
  cif_1: !CIF1
    health_status: optional
    buffer_size: !DIFI1p2BufferSize
      mode: required
''', Pkt('OdDifi', 'Context', dif, cls=(0x6A621E, 0, 1), ts=('utc', 'picoseconds')), over=DIFI))
    r.append(mk('''OdDifiOpt: !ExtensionContext
  cif_0: !CIF0
    bandwidth: optional
    reference_level: !DIFI1p2ReferenceLevel
      mode: optional
    gain: optional
  cif_1: !CIF1
    buffer_size: !DIFI1p2BufferSize
      mode: optional
    health_status: required
''', Pkt('OdDifiOpt', 'ExtensionContext', [(n, {'health_status': 'r'}.get(n, 'o')) for n, _ in dif]), over=DIFI))
    r.append(mk('''OdDifiCtl: !Control
  cam: !ControlAcknowledgeMode
    action_mode: Execute
    req_v: true
    req_x: Optional
    permit_errors: false
  cif_0: !CIF0
    reference_level: !DIFI1p2ReferenceLevel
      mode: optional
  cif_1: !CIF1
    buffer_size: !DIFI1p2BufferSize
      mode: required
''', Pkt('OdDifiCtl', 'Control', [('reference_level', 'o'), ('buffer_size', 'r')], cam=dict(action_mode='execute', req_v='true', req_x='optional')), over=DIFI))
    # acknowledge mode: order of settings, identifiers before and after it
    r.append(mk('''OdCam: !Control
  controller_id: UUID
  cam: !ControlAcknowledgeMode
    action_mode: none
    req_s: Required
    permit_partial: required
    permit_warnings: optional
    permit_errors: true
  controllee_id: Word
  cif_0: !CIF0
    bandwidth: optional
    device_id: required
''', Pkt('OdCam', 'Control', [('bandwidth', 'o'), ('device_id', 'r')], cam=dict(action_mode='none', req_s='required', permit_partial='required', permit_warnings='optional', permit_errors='true'),
         ids=dict(controllee_id='word', controller_id='uuid'))))
    r.append(mk('''OdCamDry: !ExtensionControl
  cif_0: !CIF0
    bandwidth: optional
  cam: !ControlAcknowledgeMode
    req_er: optional
    req_w: optional
    req_s: false
    req_x: required
    req_v: optional
    action_mode: Dry-Run
  controllee_id: UUID
''', Pkt('OdCamDry', 'ExtensionControl', [('bandwidth', 'o')], cam=dict(action_mode='dry-run', req_er='optional', req_w='optional', req_x='required', req_v='optional'), ids=dict(controllee_id='uuid'))))
    # user-defined stream ids of commands
    r.append(mk('''OdSidCtl: !Control
  stream_id: !StreamID
    node: !IntegerType {bits: 7}
    flag: !IntegerType {bits: 1}
    chan: !IntegerType {bits: 24}
  class_id: !ClassID
    oui: 01-02-03
    information_code: 4
    packet_code: 5
  cam: !ControlAcknowledgeMode
    action_mode: execute
    req_s: true
  cif_0: !CIF0
    gain: optional
''', Pkt('OdSidCtl', 'Control', [('gain', 'o')], cls=(0x10203, 4, 5), cam=dict(action_mode='execute', req_s='true')), sid_struct='ns::packets::od_sid_ctl::structs::StreamIdentifier'))
    ctl = r[-1]
    r.append(mk('OdSidAck: !Ack\n  responds_to: OdSidCtl\n', AckS('OdSidAck', ctl), sid_struct='ns::packets::od_sid_ack::structs::StreamIdentifier'))
    # discrete I/O of commands and their acknowledgements
    dio = [('temperature', 'r'), ('discrete_io_32', 'o'), ('discrete_io_64', 'r')]
    def st(n): return dict(discrete_io_32=(1, 6, 'st', 4, 'ns::packets::%s::structs::DiscreteIO32' % n), discrete_io_64=(1, 5, 'st', 8, 'ns::packets::%s::structs::DiscreteIO64' % n))
    r.append(mk('''OdDioCtl: !Control
  cam: !ControlAcknowledgeMode
    action_mode: execute
    req_x: true
    req_s: optional
    req_er: required
  cif_0: !CIF0
    temperature: required
  cif_1: !CIF1
    discrete_io_64: !DiscreteIO64
      mode: required
      wide: 40
      low: enable_indicator
    discrete_io_32: !DiscreteIO32
      mode: optional
      sw: bool
      kind: [zero, one, two]
''', Pkt('OdDioCtl', 'Control', dio, cam=dict(action_mode='execute', req_x='true', req_s='optional', req_er='required')), over=st('od_dio_ctl')))
    ctl = r[-1]
    r.append(mk('OdDioAck: !Ack\n  responds_to: OdDioCtl\n', AckS('OdDioAck', ctl), over=st('od_dio_ack')))
    r.append(mk('', AckVX('OdDioAck', ctl)))
    # data packets
    D = Data
    r.append(mk('OdRaw: !Data\n', D('OdRaw', sid=False)))
    r.append(mk('''OdPlain: !Data
  spectrum_or_time: SPECTRUM
  stream_id: !StreamID 7
  timestamp: !Timestamp
    integer: GPS
  trailer: !Trailer
''', D('OdPlain', spec='spectrum', ts=('gps', None), trailer=[]), sid_value=7))
    r.append(mk('''OdTime: !Data
  trailer: !Trailer
    sample_frame: required
    user_defined_two: [lo, hi]
    user_defined_flag: enable_indicator
  spectrum_or_time: Time
''', D('OdTime', sid=False, spec='time', trailer=['sample_frame'], users=[('user_defined_two', ('NS::packets::od_time::enums::user_defined_two', 2), 8, 1, 20), ('user_defined_flag', 'bool', 9, 1, 21)])))
    r.append(mk('''OdFive: !Data
  stream_id: !StreamID
  trailer: !Trailer
    user_defined_flag: enable_indicator
    user_defined_five: [a, b, c, d, e]
''', D('OdFive', trailer=[], users=[('user_defined_flag', 'bool', 8, 1, 20), ('user_defined_five', ('NS::packets::od_five::enums::user_defined_five', 5), 11, 3, 23)])))
    r.append(mk('''OdNine: !Data
  class_id: !ClassID
    oui: FF-FF-FE
    information_code: 1
    packet_code: 2
  trailer: !Trailer
    user_defined_nine: [a, b, c, d, e, f, g, h, i]
''', D('OdNine', sid=False, cls=(0xFFFFFE, 1, 2), trailer=[], users=[('user_defined_nine', ('NS::packets::od_nine::enums::user_defined_nine', 9), 11, 4, 23)])))
    r.append(mk('''OdFour: !Data
  trailer: !Trailer
    user_defined_a: [w, x, y, z]
    user_defined_b: [q, r, s, t]
''', D('OdFour', sid=False, trailer=[], users=[('user_defined_a', ('NS::packets::od_four::enums::user_defined_a', 4), 9, 2, 21), ('user_defined_b', ('NS::packets::od_four::enums::user_defined_b', 4), 11, 2, 23)])))
    return r


MULTI = '''OdMany: !Context
  stream_id: !StreamID
  class_id: !ClassID
    oui: FF-EE-DD
    information_code: 0
    packet_code: 9
  cif_0: !CIF0
    gain: optional
OdOnce: !Data
  class_id: !ClassID
    oui: FF-EE-DD
    information_code: 0
    packet_code: 10
InfoA: !InformationClass
  code: 0x21
  packet_classes: [OdMany, OdOnce]
InfoB: !InformationClass
  code: 0x22
  packet_classes:
    - OdMany
'''


def accept(p):
    b, offs, pl = fresh_bytes(p)
    n = len(b)
    return '''constexpr uint8_t BASE[] = {%s}; constexpr size_t N = %d, PL = %d;
extern "C" void %s_accept() { std::vector<uint8_t> w(N); memcpy(w.data(), BASE, N); vs_bytes(w.data(), PL, "prologue"); w[2] = (uint8_t)(N / 4 >> 8); w[3] = (uint8_t)(N / 4);
  bool want = %s; bool got = !P::match({w.data(), w.size()}); vs_assert(got == want, "accept"); vs_reach("end"); }
''' % (', '.join(map(str, b)), n, pl, p.name, oracle(p, offs, 'w.data()'))


def one(chk, p, d, T):
    with fields(p.over):
        data = isinstance(p, Data)
        code = COMMON + '#include "%s.hpp"\n' % hdr(p) + (datamodel(p, 5) if data else model(p) + '\nusing namespace m_%s;\n' % p.name + masktab(p) + RECV)
        if not isinstance(p, Ack): code += accept(p)
    es = [] if isinstance(p, Ack) else [Entry(p.name + '_accept', **R)]
    recv = 'M m = arb(4 * (size_t)vs_pick("words", 0, NMAX / 4)); std::vector<uint8_t> w(MAXI); w.resize(img(m, w.data()));' if data else 'std::vector<uint8_t> w; M m = received(MASK[vs_pick("mask", 0, NM - 1)], w);'
    for fn, body in [('fresh', 'P p; M m = fresh(); whole(p, m); reparse(p, m);'),
                     ('hist', 'P p; M m = fresh(); for (int i = 0; i < %d; i++) op((int)vs_pick("op", 0, NO - 1), p, m); whole(p, m); reparse(p, m);' % (3 if T else 2)),
                     ('parse', recv + ' vs_assert(!P::match({w.data(), w.size()}) == (%s), "match"); P q({w.data(), w.size()}); whole(q, m);' % p.own),
                     ('edit', recv + ' P q({w.data(), w.size()}); op((int)vs_pick("op", 0, NO - 1), q, m); whole(q, m); reparse(q, m);')]:
        code += 'extern "C" void %s_%s() { %s vs_reach("end"); }\n' % (p.name, fn, body)
        es.append(Entry('%s_%s' % (p.name, fn), **R))
    chk.add(TU(p.name, code, es, srcs=['%s/%s.cpp' % (d, hdr(p))], incs=[d], defs=['-DVS_NOTEXT']))


def G09(chk):
    T = chk.tier == 'thorough'
    ps = definitions()
    d = generate(chk, ps)
    chk.bounds = '%d definitions: constants, letter case and order of settings, absent and `none` timestamps, empty definitions, DIFI types, acknowledge-mode settings, user-defined trailers and stream ids, several information codes; every prologue bit, histories of up to %d operations, one operation on every received packet' % (len(ps) + 2, 3 if T else 2)
    for p in ps: one(chk, p, d, T)
    d2 = generate(chk, yaml=MULTI, sub='multi')
    a = mk('', Pkt('OdMany', 'Context', [('gain', 'o')], cls=(0xFFEEDD, 0x21, 9)), anycode=True)
    b = mk('', Data('OdOnce', sid=False, cls=(0xFFEEDD, 0x21, 10)))
    for p in (a, b): one(chk, p, d2, T)
