"""Reference model of generated packets: YAML definition, wire image and harness code, written from
VITA 49.2 (field tables, bit numbers, sizes) independently of the generator's templates."""
import os, sys, subprocess
from .driver import REPO, VERIF, Setup, need

# name: (cif word, bit, kind, bytes on the wire, argument)
#  u/s: integer in its natural size; r16: 16-bit integer behind 16 reserved bits; fx: fixed point (radix); rfx: 16-bit fixed point
#  behind 16 reserved bits; st: structure; uuid; en: enumeration; ssc/idx: variable-length structures
F = {}
def _f(c, b, n, k, sz, a=None): F[n] = (c, b, k, sz, a)
for n, b in (('bandwidth', 29), ('if_ref_frequency', 28), ('rf_ref_frequency', 27), ('rf_ref_frequency_offset', 26), ('if_band_offset', 25), ('sample_rate', 21)): _f(0, b, n, 'fx', 8, 20)
for n, b in (('reference_point_id', 30), ('timestamp_calibration_time', 19), ('ephemeris_ref_id', 10)): _f(0, b, n, 'u', 4)
_f(0, 22, 'over_range_count', 's', 4)
_f(0, 20, 'timestamp_adjustment', 's', 8)
_f(0, 24, 'reference_level', 'rfx', 4, 7); _f(0, 18, 'temperature', 'rfx', 4, 6)
_f(0, 23, 'gain', 'st', 4, 'Gain'); _f(0, 17, 'device_id', 'st', 8, 'DeviceIdentifier'); _f(0, 16, 'state_event_indicators', 'st', 4, 'StateEventIndicators')
_f(0, 15, 'signal_data_format', 'st', 8, 'PayloadFormat')
for n, b in (('formatted_gps', 14), ('formatted_ins', 13)): _f(0, b, n, 'st', 44, 'Geolocation')
for n, b in (('ecef_ephemeris', 12), ('relative_ephemeris', 11)): _f(0, b, n, 'st', 52, 'Ephemeris')
_f(1, 31, 'phase_offset', 'rfx', 4, 7); _f(1, 18, 'compression_point', 'rfx', 4, 7)
for n, b, t in (('polarization', 30, 'Polarization'), ('pointing_vector', 29, 'PointingVector'), ('beam_width', 25, 'BeamWidth'), ('ebno_ber', 20, 'EbNoBER'), ('threshold', 19, 'Threshold'),
                ('intercept_points', 17, 'InterceptPoints'), ('snr_noise_figure', 16, 'SNRNoise'), ('aux_gain', 14, 'Gain'), ('version_information', 2, 'VersionInformation')): _f(1, b, n, 'st', 4, t)
_f(1, 27, 'spatial_scan_type', 'r16', 4); _f(1, 4, 'health_status', 'r16', 4)
_f(1, 24, 'range', 'fx', 4, 6)
for n, b in (('aux_frequency', 15), ('aux_bandwidth', 13), ('buffer_size', 1)): _f(1, b, n, 'fx', 8, 20)
_f(1, 10, 'spectrum', 'st', 52, 'Spectrum')
_f(1, 6, 'discrete_io_32', 'u', 4); _f(1, 5, 'discrete_io_64', 'u', 8)
_f(1, 3, 'v49_spec_compliance', 'en', 4, 'V49StandardCompliance')
for i, n in enumerate('''bind cited_sid sibling_sid parent_sid child_sid cited_message_id controllee_id controllee_uuid controller_id controller_uuid information_source track_id
 country_code operator_id platform_class platform_instance platform_display ems_device_class ems_device_type ems_device_instance modulation_class modulation_type
 function_id mode_id event_id function_priority_id communication_priority_id rf_footprint rf_footprint_range'''.split()):
    _f(2, 31 - i, n + ('_2' if False else ''), *(('uuid', 16) if n.endswith('uuid') else ('u', 4)))
CIFN = {c: sorted([n for n in F if F[n][0] == c], key=lambda n: -F[n][1]) for c in (0, 1, 2)}

TYPES = {'Context': 4, 'ExtensionContext': 5, 'Control': 6, 'ExtensionControl': 7, 'Ack': 6, 'ExtensionAck': 7}


class Pkt:
    """kind: Context|ExtensionContext|Control|ExtensionControl|Data|ExtensionData; fields: [(name, 'o'|'r')]"""
    def __init__(self, name, kind, fields=(), sid=True, cls=None, ts=None, tsm=None, cam=None, ids=None, extra=None, ns='ns', strict=False):
        self.name, self.kind, self.fields, self.sid, self.cls, self.ts, self.tsm = name, kind, sorted(fields, key=lambda f: (F[f[0]][0], -F[f[0]][1])), sid, cls, ts, tsm
        self.cam, self.ids, self.extra, self.ns = cam or {}, ids or {}, extra or {}, ns
        self.command = 'Control' in kind or 'Ack' in kind
        if self.command: self.sid = True
        self.cls_name = name                      # generated class, and the header declaring it
        self.own = 'true'                         # C++ over M m: the packet is one its class accepts
        self.enable_only = self.command and self.cam.get('action_mode', 'none') == 'none'
        self.cam_ops = []                         # further CAM settings: (name, lsb, bits, C++ type)
        self.cam_derived = 0                      # CAM bits that follow from the contents
        self.ytext = None                         # the definition as written, when it differs from the plain rendering
        self.sid_value = 0                        # stream id of a new packet
        self.sid_struct = None                    # C++ type of a user-defined stream id
        self.anycode = False                      # the information code may be anything

    # ------------------------------------------------------------ definition file
    def yaml(self):
        if self.ytext is not None: return self.ytext
        y = ['%s: !%s' % (self.name, self.kind)]
        if self.sid: y.append('  stream_id: !StreamID')
        if self.cls:
            y += ['  class_id: !ClassID', '    oui: %s' % '-'.join('%06X'[:] % self.cls[0] if False else ['%06X' % self.cls[0]][0][i:i + 2] for i in (0, 2, 4)),
                  '    information_code: 0x%X' % self.cls[1], '    packet_code: 0x%X' % self.cls[2]]
        if self.ts:
            y.append('  timestamp: !Timestamp')
            if self.ts[0]: y.append('    integer: ' + self.ts[0])
            if self.ts[1]: y.append('    fractional: ' + self.ts[1])
        if self.tsm: y.append('  tsm: ' + self.tsm)
        if self.command:
            y.append('  cam: !ControlAcknowledgeMode')
            y += ['    %s: %s' % kv for kv in sorted(self.cam.items(), key=lambda kv: kv[0] == 'action_mode')]
        for k, v in self.ids.items(): y.append('  %s: %s' % (k, v))
        for c in (0, 1, 2):
            fs = [f for f in self.fields if F[f[0]][0] == c]
            if fs or c == 0:
                y.append('  cif_%d: !CIF%d' % (c, c))
                if c == 0: y.append('    change_indicator: required')
                y += ['    %s: %s' % (n, 'required' if o == 'r' else 'optional') for n, o in fs]
        return '\n'.join(y) + '\n'

    # ------------------------------------------------------------ header word
    TSI = {None: 0, 'utc': 1, 'gps': 2, 'other': 3, 'any': 0}
    TSF = {None: 0, 'samples': 1, 'picoseconds': 2, 'free-running': 3, 'any': 0}

    def hdr(self):
        ts = self.ts or (None, None)
        w = TYPES[self.kind] << 28 | bool(self.cls) << 27 | self.TSI[ts[0]] << 22 | self.TSF[ts[1]] << 20
        if 'Context' in self.kind:
            if self.extra.get('cif7') or any(F[n][0] for n, _ in self.fields): w |= 1 << 25
            if self.tsm == 'coarse': w |= 1 << 24
        return w

    def prologue(self):
        """[(name, kind, bytes)] after the header word"""
        r = []
        if self.sid: r.append(('stream_id', 'st' if self.sid_struct else 'u', 4))
        if self.cls: r.append(('class_id', 'cls', 8))
        if self.ts and self.ts[0]: r.append(('integer_timestamp', 'u', 4))
        if self.ts and self.ts[1]: r.append(('fractional_timestamp', 'u', 8))
        if self.command:
            r += [('cam', 'cam', 4), ('message_id', 'u', 4)]
            for k in ('controllee_id', 'controller_id'):
                if self.ids.get(k) == 'word': r.append((k, 'u', 4))
                elif self.ids.get(k): r.append((k, 'uuid', 16))
        return r

    CAMBITS = dict(permit_partial=27, permit_warnings=26, permit_errors=25, req_v=20, req_x=19, req_s=18, req_w=17, req_er=16, nack_only=22)

    def cam_word(self):
        w = {'none': 0, 'dry-run': 1, 'execute': 2}[self.cam.get('action_mode', 'none')] << 23
        for k, b in self.CAMBITS.items():
            if self.cam.get(k) in ('true', 'required'): w |= 1 << b
        for k, (e, f) in dict(controllee_id=(31, 30), controller_id=(29, 28)).items():
            if self.ids.get(k):
                w |= 1 << e
                if self.ids[k] == 'uuid': w |= 1 << f
        return w


def generate(chk, pkts=None, yaml=None, ns='ns', sub='gen', opts=()):
    """runs the repository's generator on the definitions; returns the output directory"""
    d = '%s/%s' % (chk.work, sub)
    os.makedirs(d, exist_ok=True)
    y = '%s/defs.yaml' % d
    open(y, 'w').write(yaml if yaml is not None else '\n'.join(p.yaml() for p in pkts))
    need(['/opt/vrtgen-venv/bin/python', '-W', 'ignore', VERIF + '/vlib/rungen.py', REPO, d, ns, y, *opts], timeout=120)
    return d


# ---------------------------------------------------------------- harness code
IT = {1: 'uint8_t', 2: 'uint16_t', 4: 'uint32_t', 8: 'uint64_t'}
ST = {1: 'int8_t', 2: 'int16_t', 4: 'int32_t', 8: 'int64_t'}
SM = {}


def st_type(arg): return arg if arg.startswith('ns::') else 'vrtgen::packing::' + arg


def api(kind, sz, arg, raw, var):
    """C++ statement declaring the API value `var` stored as bytes `raw`"""
    if kind == 'u': return '%s %s = (%s)be(%s, %d);' % (IT[sz], var, IT[sz], raw, sz)
    if kind == 's': return '%s %s = (%s)be(%s, %d);' % (ST[sz], var, ST[sz], raw, sz)
    if kind == 'r16': return 'uint16_t %s = (uint16_t)be(%s + 2, 2);' % (var, raw)
    if kind == 'fx': return 'long double %s = (long double)(%s)be(%s, %d) / %s;' % (var, ST[sz], raw, sz, float(1 << arg))
    if kind == 'rfx': return 'double %s = (double)(int16_t)be(%s + 2, 2) / %s;' % (var, raw, float(1 << arg))
    if kind == 'st': return '%s %s; %s.unpack_from(%s);' % (st_type(arg), var, var, raw)
    if kind == 'uuid': return 'vrtgen::UUID %s; %s.unpack_from(%s);' % (var, var, raw)
    if kind == 'en': return 'auto %s = (vrtgen::packing::%s)be(%s, 4);' % (var, arg, raw)
    raise KeyError(kind)


def same(kind, sz, arg, raw, got):
    """C++ boolean: API value `got` equals the stored bytes"""
    if kind in ('st', 'uuid'): return 'same_img(%s, %s, %d)' % (got, raw, sz)
    if kind == 'u': return '%s == (%s)be(%s, %d)' % (got, IT[sz], raw, sz)
    if kind == 's': return '%s == (%s)be(%s, %d)' % (got, ST[sz], raw, sz)
    if kind == 'r16': return '%s == (uint16_t)be(%s + 2, 2)' % (got, raw)
    if kind == 'fx': return '%s == (long double)(%s)be(%s, %d) / %s' % (got, ST[sz], raw, sz, float(1 << arg))
    if kind == 'rfx': return '%s == (double)(int16_t)be(%s + 2, 2) / %s' % (got, raw, float(1 << arg))
    if kind == 'en': return '(uint32_t)%s == (uint32_t)be(%s, 4)' % (got, raw)
    raise KeyError(kind)


def norm(kind, sz, raw):
    """reserved bytes are sent as zero; enumerations only hold their members"""
    if kind in ('r16', 'rfx'): return '%s[0] = %s[1] = 0;' % (raw, raw)
    if kind == 'en': return '%s[0] = %s[1] = %s[2] = 0; { int k = (int)vs_pick("v49", 1, 4); %s[3] = (uint8_t)k; }' % (raw, raw, raw, raw)
    return ''


COMMON = '''#include "vs.h"
#include <array>
template <class T> static bool same_img(const T &got, const uint8_t *raw, size_t n) {
  uint8_t b[64]; if (got.size() != n) return false; got.pack_into(b); bool ok = true; for (size_t i = 0; i < n; i++) ok &= b[i] == raw[i]; return ok;
}
template <class S> static bool same_bytes(const S &s, const uint8_t *r, size_t n) { bool ok = true; for (size_t i = 0; i < n; i++) ok &= s[i] == r[i]; return ok; }
'''


def model(p):
    """C++ for one packet: model M_<p>, image, operations and getters"""
    P = '%s::packets::%s' % (p.ns, p.cls_name)
    pro, fs = p.prologue(), p.fields
    enable_only = p.enable_only
    N = len(fs)
    L = []
    A = L.append
    A('namespace m_%s {' % p.name)
    A('using P = %s;' % P)
    A('constexpr int NF = %d, NP = %d;' % (N, len(pro)))
    A('struct M { uint8_t cnt = 0; bool ci = false; uint32_t cam = 0x%xu; bool has[NF + 1] = {}; uint8_t raw[NF + 1][56] = {}; uint8_t pro[NP + 1][16] = {}; };' % (p.cam_word() if p.command else 0))
    A('struct FD { int cif, bit, size; bool opt; };')
    A('constexpr FD FT[NF + 1] = {%s};' % ', '.join(['{%d, %d, %d, %s}' % (F[n][0], F[n][1], F[n][3], 'true' if o == 'o' else 'false') for n, o in fs] + ['{0, 0, 0, false}']))
    A('[[maybe_unused]] static void w32(uint8_t *o, uint32_t v) { o[0] = (uint8_t)(v >> 24); o[1] = (uint8_t)(v >> 16); o[2] = (uint8_t)(v >> 8); o[3] = (uint8_t)v; }')
    # image
    A('static size_t img(const M &m, uint8_t *o) {')
    A('  size_t n = 4;')
    for i, (n, k, sz) in enumerate(pro):
        if k == 'cam': A('  w32(o + n, m.cam); n += 4;')
        else: A('  for (int i = 0; i < %d; i++) o[n + i] = m.pro[%d][i]; n += %d;' % (sz, i, sz))
    if hasattr(p, 'img_code'): A(p.img_code())
    else: A('  bool need[3] = {true, false, false};')
    for c in () if hasattr(p, 'img_code') else (1, 2):
        if any(F[n][0] == c and o == 'r' for n, o in fs): A('  need[%d] = true;' % c)
    if not hasattr(p, 'img_code'):
      A('  for (int i = 0; i < NF; i++) if (m.has[i]) need[FT[i].cif] = true;')
      A('  for (int c = 0; c < 3; c++) if (need[c]) { uint32_t w = 0; if (c == 0) w = (uint32_t)m.ci << 31 | (uint32_t)need[2] << 2 | (uint32_t)need[1] << 1;')
      A('    for (int i = 0; i < NF; i++) if (FT[i].cif == c && m.has[i]) w |= 1u << FT[i].bit;')
      A('    w32(o + n, w); n += 4; }')
    if not enable_only:
        A('  for (int i = 0; i < NF; i++) if (m.has[i]) { for (int j = 0; j < FT[i].size; j++) o[n + j] = m.raw[i][j]; n += FT[i].size; }')
    A('  w32(o, 0x%08xu | (uint32_t)m.cnt << 16 | (uint32_t)(n / 4)); return n; }' % p.hdr())
    A('constexpr size_t MAXI = 4 + %d + 24 + %d;' % (sum(x[2] for x in pro), sum(F[n][3] for n, _ in fs)))
    # a fresh packet
    A('static M fresh() { M m;')
    for i, (n, k, sz) in enumerate(pro):
        if k == 'cls': A('  { const uint8_t c[8] = {0, %s}; memcpy(m.pro[%d], c, 8); }' % (', '.join('0x%x' % x for x in [*p.cls[0].to_bytes(3, 'big'), *p.cls[1].to_bytes(2, 'big'), *p.cls[2].to_bytes(2, 'big')]), i))
        if n == 'stream_id' and p.sid_value: A('  w32(m.pro[%d], 0x%xu);' % (i, p.sid_value))
    for i, (n, o) in enumerate(fs):
        if o == 'r':
            A('  m.has[%d] = true;' % i)
            if F[n][2] == 'st' and not enable_only: A('  { %s d; d.pack_into(m.raw[%d]); }' % (st_type(F[n][4]), i))
            if F[n][2] == 'uuid' and not enable_only: A('  { vrtgen::UUID d; d.pack_into(m.raw[%d]); }' % i)
    A('  return m; }')
    # symbolic contents
    A('static void sym_field(M &m, int i, const char *nm) { switch (i) {')
    for i, (n, o) in enumerate(fs):
        A('  case %d: vs_bytes(m.raw[%d], %d, nm); %s break;' % (i, i, F[n][3], norm(F[n][2], F[n][3], 'm.raw[%d]' % i)))
    A('  } }')
    A('static void sym_pro(M &m, int i, const char *nm) { switch (i) {')
    for i, (n, k, sz) in enumerate(pro):
        if k == 'cls': A('  case %d: m.pro[%d][0] = (uint8_t)(vs_sym(nm, 5) << 3); break;' % (i, i))
        elif k == 'cam': A('  case %d: m.cam = (m.cam & ~0x7000u) | (uint32_t)vs_sym(nm, 3) << 12; break;' % i)
        else: A('  case %d: vs_bytes(m.pro[%d], %d, nm); break;' % (i, i, sz))
    A('  } }')
    # arbitrary packet with presence mask
    A('static M arb(uint64_t mask) { M m = fresh(); m.cnt = (uint8_t)vs_sym("count", 4); %s' % ('' if enable_only or hasattr(p, 'img_code') else 'm.ci = vs_bool("ci");'))
    A('  for (int i = 0; i < NP; i++) sym_pro(m, i, "pro");')
    A('  for (int i = 0; i < NF; i++) if (!FT[i].opt || (mask >> i & 1)) { m.has[i] = true; %s }' % ('' if enable_only else 'sym_field(m, i, "raw");'))
    A('  return m; }')
    # operations
    ops = []
    ops.append('m.cnt = (uint8_t)vs_sym("count", 4); p.packet_count(m.cnt);')
    ci = not enable_only and not hasattr(p, 'img_code')
    if ci: ops.append('m.ci = vs_bool("ci"); p.change_indicator(m.ci);')
    for i, (n, k, sz) in enumerate(pro):
        r = 'm.pro[%d]' % i
        if k == 'u': ops.append('sym_pro(m, %d, "%s"); { %s p.%s(v); }' % (i, n, api('u', sz, None, r, 'v'), n))
        elif k == 'cls': ops.append('sym_pro(m, %d, "pad"); p.pad_bits(m.pro[%d][0] >> 3);' % (i, i))
        elif k == 'st':
            ops.append('sym_pro(m, %d, "%s"); { %s v; v.unpack_from(%s); p.%s(v); }' % (i, n, p.sid_struct, r, n))
            ops.append('sym_pro(m, %d, "%s"); p.%s().unpack_from(%s);' % (i, n, n, r))
        elif k == 'uuid':
            ops.append('sym_pro(m, %d, "%s"); { %s p.%s(v); }' % (i, n, api('uuid', 16, None, r, 'v'), n))
            ops.append('sym_pro(m, %d, "%s"); { %s p.%s() = v; }' % (i, n, api('uuid', 16, None, r, 'v'), n))
        elif k == 'cam':
            ops.append('sym_pro(m, %d, "tcm"); p.timing_control((vrtgen::packing::TimestampControlMode)(m.cam >> 12 & 7));' % i)
            for q, b in Pkt.CAMBITS.items():
                if q in ('req_v', 'req_x', 'req_s') and p.cam.get(q) == 'optional' and 'Ack' not in p.kind: ops.append('{ bool v = vs_bool("%s"); m.cam = (m.cam & ~(1u << %d)) | (uint32_t)v << %d; p.%s(v); }' % (q, b, b, q))
            for q, lsb, nb, t in p.cam_ops:
                ops.append('{ uint32_t v = (uint32_t)vs_sym("%s", %d); m.cam = (m.cam & ~(%du << %d)) | v << %d; p.%s((%s)v); }' % (q, nb, (1 << nb) - 1, lsb, lsb, q, t))
    fops = []
    for i, (n, o) in enumerate(fs):
        c, b, k, sz, a = F[n]
        r = 'm.raw[%d]' % i
        if enable_only:
            if o == 'o':
                fops.append((n, 'set', '{ bool v = vs_bool("en"); v = vs_concretize(v); m.has[%d] = v; p.%s_enabled(v); }' % (i, n)))
                fops.append((n, 'reset', 'm.has[%d] = false; p.reset_%s();' % (i, n)))
            continue
        fops.append((n, 'set', 'sym_field(m, %d, "%s"); m.has[%d] = true; { %s p.%s(v); }' % (i, n, i, api(k, sz, a, r, 'v'), n)))
        if k in ('st', 'uuid'):
            fops.append((n, 'assign', 'sym_field(m, %d, "%s"); m.has[%d] = true; { %s p.%s() = v; }' % (i, n, i, api(k, sz, a, r, 'v'), n)))
            if o == 'o': fops.append((n, 'clear', 'm.has[%d] = false; p.%s().reset();' % (i, n)))
        if o == 'o': fops.append((n, 'reset', 'm.has[%d] = false; p.reset_%s();' % (i, n)))
    fops += p.more_ops() if hasattr(p, 'more_ops') else []
    for c in () if hasattr(p, 'img_code') else (1, 2):
        idx = [i for i, (n, o) in enumerate(fs) if F[n][0] == c]
        if idx and all(fs[i][1] == 'o' for i in idx):
            fops.append(('cif_%d' % c, 'resetcif', ' '.join('m.has[%d] = false;' % i for i in idx) + ' p.reset_cif_%d();' % c))
    p.ops = [('prologue', 'set')] * len(ops) + [(n, w) for n, w, _ in fops]
    p.npro_ops = len(ops)
    A('constexpr int NPO = %d, NO = %d;' % (len(ops), len(ops) + len(fops)))
    A('static void op(int k, P &p, M &m) { switch (k) {')
    for i, t in enumerate(ops + [x[2] for x in fops]): A('  case %d: %s break;' % (i, t))
    A('  } }')
    # getters
    g = []
    g.append('vs_assert(p.packet_count() == m.cnt, "get:packet_count");')
    if ci: g.append('vs_assert(p.change_indicator() == m.ci, "get:change_indicator");')
    for i, (n, k, sz) in enumerate(pro):
        r = 'm.pro[%d]' % i
        if k == 'u': g.append('vs_assert(p.%s() == (%s)be(%s, %d), "get:%s");' % (n, IT[sz], r, sz, n))
        elif k in ('uuid', 'st'): g.append('vs_assert(same_img(p.%s(), %s, %d), "get:%s");' % (n, r, sz, n))
        elif k == 'cls': g.append('vs_assert(p.pad_bits() == (%s[0] >> 3) && p.class_id().oui() == 0x%xu && p.class_id().information_code() == 0x%x && p.class_id().packet_code() == 0x%x, "get:class_id");' % (r, *p.cls))
        elif k == 'cam':
            g.append('{ uint8_t b[4]; p.cam().pack_into(b); vs_assert((((uint32_t)be(b, 4) ^ m.cam) & ~0x%xu) == 0, "get:cam"); vs_assert((uint32_t)p.timing_control() == (m.cam >> 12 & 7), "get:timing_control"); }' % p.cam_derived)
            for q, lsb, nb, t in p.cam_ops: g.append('vs_assert((uint32_t)p.%s() == (m.cam >> %d & %du), "get:%s");' % (q, lsb, (1 << nb) - 1, q))
            for q, b in Pkt.CAMBITS.items():
                if q in ('req_v', 'req_x', 'req_s') and p.cam.get(q) == 'optional' and 'Ack' not in p.kind: g.append('vs_assert(p.%s() == (bool)(m.cam >> %d & 1), "get:%s");' % (q, b, q))
    ng = len(g)
    for i, (n, o) in enumerate(fs):
        c, b, k, sz, a = F[n]
        r = 'm.raw[%d]' % i
        if enable_only: g.append('vs_assert(p.%s_enabled() == m.has[%d], "get:%s");' % (n, i, n))
        elif o == 'r': g.append('vs_assert(%s, "get:%s");' % (same(k, sz, a, r, 'p.%s()' % n), n))
        else: g.append('{ auto v = p.%s(); vs_assert(v.has_value() == m.has[%d], "has:%s"); if (v.has_value() && m.has[%d]) vs_assert(%s, "get:%s"); }' % (n, i, n, i, same(k, sz, a, r, '*v'), n))
    A('constexpr int NPG = %d, NG = %d;' % (ng, len(g)))
    A('static void get(int k, P &p, const M &m) { switch (k) {')
    for i, t in enumerate(g): A('  case %d: %s break;' % (i, t))
    A('  } }')
    A('''static void image_is(P &p, const M &m, const char *id, const char *ids) {
  uint8_t r[MAXI]; size_t n = img(m, r); auto d = p.data();
  vs_assert(d.size() == n, ids); if (d.size() == n) vs_assert(same_bytes(d, r, n), id); }
static void getters(P &p, const M &m) { for (int i = 0; i < NG; i++) get(i, p, m); }
static void whole(P &p, const M &m) {
  getters(p, m); image_is(p, m, "image", "image-size"); vs_assert(p.size() == p.data().size(), "size()"); vs_assert((size_t)p.header().packet_size() * 4 == p.data().size(), "packet_size");
  getters(p, m); image_is(p, m, "image-again", "image-size-again"); }
static void reparse(P &p, const M &m) {
  auto d = p.data(); std::vector<uint8_t> w(d.begin(), d.end()); vs_assert(!P::match({w.data(), w.size()}) == (OWN), "match-own"); P q({w.data(), w.size()});
  getters(q, m); image_is(q, m, "reparse-image", "reparse-size"); }'''.replace('OWN', p.own))
    A('}')
    return '\n'.join(L)
