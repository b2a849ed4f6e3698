"""Fields that carry attributes besides their current value (G12)."""
from .pkt import Pkt, F, CIFN, generate
from .gen_props import tu, R, RECV, CLS, CAMS
from . import pkt

# VITA 49.2 table 9.12-1: the attributes sent in the format of the field itself, in transmission order
ATTRS = dict(mean_value=30, median_value=29, standard_deviation=28, max_value=27, min_value=26, precision=25, accuracy=24, first_derivative=23, second_derivative=22, third_derivative=21)


class Attr(Pkt):
    """every field is followed by its attributes: pseudo-fields of 'indicator word 7' named by their accessor"""
    def __init__(self, name, kind, fields, attrs, **kw):
        super().__init__(name, kind, [(f, 'r') for f in fields], extra=dict(cif7=True), **kw)
        self.attrs = sorted(attrs, key=lambda a: -ATTRS[a])
        fs = []
        for n, o in self.fields:
            fs.append((n, o))
            for a in self.attrs:
                k = '%s_attributes().%s' % (n, a)
                F[k] = (7, ATTRS[a], *F[n][2:])
                fs.append((k, 'r'))
        self.fields = fs

    def yaml(self):
        return super().yaml() + '  cif_7:  !CIF7\n    current_value: required\n' + ''.join('    %s: required\n' % a for a in self.attrs)

    def img_code(self):
        w0, w7 = 1 << 7, 1 << 31
        for n, o in self.fields:
            if F[n][0] == 0: w0 |= 1 << F[n][1]
        for a in self.attrs: w7 |= 1 << ATTRS[a]
        return '  w32(o + n, 0x%xu); n += 4; w32(o + n, 0x%xu); n += 4;' % (w0, w7)


def defs():
    c0 = [n for n in CIFN[0]]
    return [Attr('AtEvery', 'Context', c0, ['mean_value']),
            Attr('AtTypes', 'ExtensionContext', ['bandwidth', 'reference_level', 'gain', 'device_id', 'timestamp_adjustment'], list(ATTRS), cls=CLS, ts=('utc', 'picoseconds')),
            Attr('AtSome', 'Context', ['rf_ref_frequency', 'temperature', 'over_range_count', 'state_event_indicators', 'formatted_gps'], ['standard_deviation', 'min_value', 'accuracy', 'third_derivative'], ts=('gps', None), tsm='coarse'),
            Attr('AtOther', 'ExtensionContext', ['reference_point_id', 'sample_rate', 'signal_data_format', 'relative_ephemeris'], ['median_value', 'max_value', 'precision', 'second_derivative']),
            Attr('AtCtl', 'Control', ['bandwidth', 'temperature', 'gain'], ['mean_value', 'accuracy'], cls=CLS, ts=('utc', None), cam=dict(CAMS, action_mode='execute'), ids=dict(controllee_id='word', controller_id='uuid')),
            Attr('AtCtlDry', 'ExtensionControl', ['if_band_offset', 'formatted_ins'], ['max_value', 'first_derivative'], cam=dict(action_mode='dry-run', permit_warnings='true', req_s='optional'))]


def G12(chk):
    T = chk.tier == 'thorough'
    chk.bounds = ('%d context definitions: every field of the first indicator word with one attribute, and selections of every field type with up to all ten attributes; every value of every field and attribute, '
                  'one (thorough: two) arbitrary operations on a new packet, one on a received packet; received packets cut at every word') % len(defs())
    ps = defs()
    d = generate(chk, ps)
    for p in ps:
        pkt.model(p)
        es = [('parse', '''std::vector<uint8_t> w; M m = received(0, w); std::vector<uint8_t> x(w.begin(), w.end());
  vs_assert(!P::match({x.data(), x.size()}), "match"); P q({x.data(), x.size()}); whole(q, m); vs_reach("end");''', R),
              ('edit', '''std::vector<uint8_t> w; M m = received(0, w); P q({w.data(), w.size()});
  op((int)vs_pick("op", 0, NO - 1), q, m); image_is(q, m, "image", "image-size"); getters(q, m); reparse(q, m); vs_reach("end");''', R),
              ('cut', '''std::vector<uint8_t> w; M m = received(0, w); size_t n = 4 * vs_pick("words", 0, (int)w.size() / 4 - 1); bool tell = vs_pick("size-says-so", 0, 1);
  std::vector<uint8_t> x(w.begin(), w.begin() + n); if (tell && n >= 4) { x[2] = (uint8_t)(n / 4 >> 8); x[3] = (uint8_t)(n / 4); }
  vs_assert((bool)P::match({x.data(), x.size()}), "match-cut"); if (n < 4 || !tell) { bool threw = false; try { P q({x.data(), x.size()}); } catch (const std::out_of_range &) { threw = true; } vs_assert(threw, "cut"); vs_reach("refused"); }
  vs_reach("end");''', dict(expect_reach=['end', 'refused']))]
        es += [('hist%d' % k, 'P p; M m = fresh(); for (int i = 0; i < %d; i++) op((int)vs_pick("op", 0, NO - 1), p, m); whole(p, m); vs_reach("end");' % k, R) for k in ((0, 1, 2) if T and len(p.ops) < 80 else (0, 1))]
        tu(chk, p, d, es, extra=RECV)
