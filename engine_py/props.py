"""What is asserted of the definition reader.  Every function below is one entry: it builds one definition out of symbolic numbers,
truth values and texts, hands it to the reader's own constructors, and states what must come out."""
import importlib, math
from pysym import E, eq, and_, or_, not_, implies, SymBool, SymInt, SymStr, ie, z3, expr

ENTRIES, TIER = {}, 'quick'


def entry(prop, reach=()):
    def d(f): ENTRIES.setdefault(prop, []).append((f.__name__, f, list(reach))); return f
    return d


class Repo:
    """the reader: its YAML constructors are given mappings directly"""
    def __init__(self):
        import yaml
        self.yaml = yaml
        self.parser = importlib.import_module('vrtgen.parser')
        self.types = importlib.import_module('vrtgen.parser.model.types')
        self.enums = importlib.import_module('vrtgen.parser.model.types.enums')
        self.helpers = importlib.import_module('vrtgen.backend.cpp.type_helpers')
        self.loader = importlib.import_module('vrtgen.parser.loader').get_loader()
        self.map = yaml.MappingNode('tag', [])

    class Given:
        def __init__(self, v): self.v = v
        def construct_mapping(self, node, deep=False): return dict(self.v)
        def construct_scalar(self, node): return self.v
        def construct_object(self, node, deep=False): return self.v

    def make(self, tag, v=None):
        node = self.yaml.ScalarNode('tag', '') if v is None or isinstance(v, str) else self.map
        return self.loader.yaml_constructors[tag](self.Given('' if v is None else v), node)

    def read(self, defs, files={}, each=lambda n, v: v):
        """what a file with these definitions, including these files, gives to the command line driver"""
        p = self.parser; real = p.yaml; out = []
        class Y:
            def __getattr__(s, n): return getattr(real, n)
            def load(s, stream, *a, **k): return stream.defs
        class F:
            def __init__(s, d): s.defs = d
            def __enter__(s): return s
            def __exit__(s, *a): pass
        p.yaml = Y(); p.__dict__['open'] = lambda name, *a, **k: F(files[name])
        try:
            for n, v in p.parse_stream(F(defs), self.loader): out.append((n, each(n, v)))
            return out
        finally: p.yaml = real; del p.__dict__['open']


R = None


def rejected(f):
    """the result, or None when the definition is refused"""
    try: return f()
    except Exception as x: return None


def lower(s):
    """my own reading of a text in any letter case"""
    if not isinstance(s, SymStr): return s.lower()
    return SymStr.make([c + 32 if isinstance(c, int) and 65 <= c <= 90 else c if isinstance(c, int) else z3.If(z3.And(c >= 65, c <= 90), c + 32, c) for c in s.c])


def mode(name):
    """required / optional in any letter case"""
    w = E.pick(name + '-is', ['required', 'optional'])
    if E.concrete is not None: return ''.join(chr(E._replayed(name)) for _ in w), w
    cs = []
    for ch in w:
        c = E.fresh(name, z3.Int('%s#%d' % (name, len(E.vars)))); E.s.add(z3.Or(c == ord(ch), c == ord(ch.upper()))); cs.append(c)
    return SymStr.make(cs), w


def words(table, hi, read, aid, err=None):
    """read(text) is table[lower-cased text], and a refusal for every other text of up to hi characters"""
    t = E.text('text', 1, hi)
    l = lower(t)
    try: got, ok = read(t), True
    except Exception: ok = False
    hit = [k for k in table if len(k) == len(t)]
    if not ok:
        E.check_that(and_(*[not_(eq(l, k)) for k in hit]), aid + '-accepted'); return
    E.reach('accepted')
    E.check_that(or_(*[and_(eq(l, k), bool(got == table[k])) for k in hit]), aid + '-meaning')


# ------------------------------------------------------------------------------------------------ Y01
def widths(n, hi): return [E.int('bits', 1, hi) for _ in range(n)]


def total(w):
    s = 0
    for x in w: s = s + x
    return s


@entry('Y01', ['laid-out', 'refused'])
def stream_id_subfields():
    n = E.pick('subfields', [1, 2, 3, 4] if TIER == 'quick' else [1, 2, 3, 4, 5, 6, 7, 8])
    w = widths(n, 40)
    sid = rejected(lambda: R.make('!StreamID', {'f%d' % i: R.make('!IntegerType', {'bits': x}) for i, x in enumerate(w)}))
    fits = total(w) <= 32
    if sid is None: E.check_that(not_(fits), 'fitting-refused'); E.reach('refused'); return
    E.check_that(fits, 'oversized-accepted')
    fs = [f for f in sid.fields if f.user_defined]
    E.check_that([f.name for f in fs] == ['f%d' % i for i in range(n)], 'names-in-order')
    E.check_that(eq(sid.bits, 32), 'one-word')
    at = 0
    for f, x in zip(fs, w):
        E.check_that(and_(eq(f.bits, x), eq(f.packed_tag.bits, x)), 'width')
        E.check_that(eq(f.packed_tag.position, at + x - 1), 'position')
        E.check_that(f.packed_tag.packed_int is not None, 'packed')
        at = at + x
    E.reach('laid-out')


def dio(bits, n, kinds):
    m, want, at, over = {}, [], 0, False
    where = E.pick('mode-at', [None, 0, n])
    mt, mw = mode('mode') if where is not None else (None, 'none')
    for i in range(n):
        if where == i: m['mode'] = mt
        k = E.pick('kind', kinds); nm = 'f%d' % i
        if k == 'bool': m[nm] = 'bool'; want.append((nm, 'bool', at, 1)); at = at + 1
        elif k == 'enable': m[nm] = 'enable_indicator'; want += [(nm, 'ind', at, 1), (nm + '_enable', 'ind', at + 1, 1)]; at = at + 2
        elif k == 'int': w = E.int('bits', 1, bits + 8); m[nm] = w; want.append((nm, 'int', at + w - 1, w)); at = at + w
        else: m[nm] = ['L%d' % j for j in range(k)]; want.append((nm, k, None, at)); at = None
        if at is None: at = want[-1][3] + (k + 1) // 2
    if where == n: m['mode'] = mt
    d = rejected(lambda: R.make('!DiscreteIO%d' % bits, m))
    fits = at <= bits
    if d is None: E.check_that(not_(fits), 'fitting-refused'); E.reach('refused'); return
    E.check_that(fits, 'oversized-accepted')
    E.check_that([f.name for f in d.subfields] == [x[0] for x in want], 'names-in-order')
    E.check_that(eq(d.bits, bits), 'word-size')
    for f, (nm, kind, pos, w) in zip(d.subfields, want):
        E.check_that(f.packed_tag.packed_int is not None and f.enabled and f.required, 'packed')
        if isinstance(kind, int):
            b = f.packed_tag.bits
            E.check_that(and_(2 ** b >= kind, eq(f.packed_tag.position, w + b - 1)), 'label-field-position')
            E.check_that([(x.name, x.value) for x in f.type_] == [('L%d' % j, j) for j in range(kind)], 'labels-numbered-in-order')
            continue
        E.check_that(eq(f.packed_tag.position, pos), 'position'); E.check_that(eq(f.packed_tag.bits, w), 'width')
        E.check_that(type(f).__name__ == {'bool': 'BooleanType', 'ind': 'EnableIndicatorType', 'int': 'IntegerType'}[kind], 'kind')
        if kind == 'int': E.check_that(eq(f.bits, w), 'value-width')
        if kind == 'ind': E.check_that(bool(f.is_enable) == nm.endswith('_enable'), 'enable-flag')
    E.check_that(bool(d.enabled) == (True if where is not None else d.enabled), 'mode-enabled')
    if where is not None: E.check_that(and_(d.enabled, d.required == (mw == 'required')), 'mode')
    E.reach('laid-out')


@entry('Y01', ['laid-out', 'refused'])
def discrete_io_32():
    dio(32, E.pick('subfields', [1, 2, 3] if TIER == 'quick' else [1, 2, 3, 4]), ['bool', 'enable', 'int', 2, 5])


@entry('Y01', ['laid-out', 'refused'])
def discrete_io_64():
    dio(64, E.pick('subfields', [1, 2, 3] if TIER == 'quick' else [1, 2, 3, 4]), ['bool', 'enable', 'int', 3, 8])


@entry('Y01', ['laid-out', 'refused'])
def discrete_io_labels():
    """one label list of any length, after and before an integer of any width"""
    k = E.pick('labels', list(range(2, 17))); b = E.pick('size', [32, 64])
    w = E.int('bits', 1, b); u = E.int('bits', 1, b)
    d = rejected(lambda: R.make('!DiscreteIO%d' % b, {'a': w, 'b': ['L%d' % j for j in range(k)], 'c': u}))
    if d is None:
        # a field of n labels never needs more than half as many bits as it has labels
        E.check_that(w + (k + 1) // 2 + u > b, 'fitting-refused'); E.reach('refused'); return
    a, l, c = d.subfields
    E.check_that(and_(2 ** l.packed_tag.bits >= k, eq(l.packed_tag.position, w + l.packed_tag.bits - 1)), 'labels')
    E.check_that(eq(c.packed_tag.position, w + l.packed_tag.bits + u - 1), 'after-labels')
    E.check_that(c.packed_tag.position < b, 'inside')
    E.reach('laid-out')


def trailer(kinds, n):
    m, want, at = {}, [], 8
    sf = E.pick('sample-frame', [None, 'first', 'last'])
    st, sw = mode('sample_frame') if sf else (None, None)
    if sf == 'first': m['sample_frame'] = st
    for i in range(n):
        k = E.pick('kind', kinds); nm = 'user_defined_%d' % i
        w = 1 if k == 'enable' else (k - 1).bit_length()
        m[nm] = 'enable_indicator' if k == 'enable' else ['L%d' % j for j in range(k)]
        want.append((nm, k, at + w - 1, w)); at += w
    if sf == 'last': m['sample_frame'] = st
    t = rejected(lambda: R.make('!Trailer', m))
    fits = at <= 12 and not (sf and at > 10)
    if t is None: E.check_that(not fits, 'fitting-refused'); E.reach('refused'); return
    E.check_that(fits, 'oversized-accepted')
    E.check_that([f.name for f in t.subfields] == [y for x in want for y in (x[0], x[0] + '_enable')], 'names-in-order')
    for i, (nm, k, pos, w) in enumerate(want):
        v, e = t.subfields[2 * i], t.subfields[2 * i + 1]
        E.check_that(v.packed_tag.position == pos and v.packed_tag.bits == w, 'indicator-position')
        E.check_that(e.packed_tag.position == pos + 12 and e.packed_tag.bits == w, 'enable-position')
        E.check_that(e.is_enable and not getattr(v, 'is_enable', False), 'enable-flag')
        if k != 'enable': E.check_that([(x.name, x.value) for x in v.type_] == [('L%d' % j, j) for j in range(k)] and e.is_enum, 'labels')
    E.check_that(bool(t.sample_frame.enabled) == bool(sf) and bool(t.sample_frame.required) == (sw == 'required'), 'sample-frame')
    E.reach('laid-out')


@entry('Y01', ['laid-out', 'refused'])
def trailer_two_fields(): trailer(['enable'] + list(range(2, 18)), E.pick('subfields', [1, 2]))


@entry('Y01', ['laid-out', 'refused'])
def trailer_more_fields(): trailer(['enable', 2, 3, 4, 5], E.pick('subfields', [3, 4]))


def holds(t, bits, signed):
    """t is an integer type every value of that width fits"""
    w = {'int8_t': 8, 'int16_t': 16, 'int32_t': 32, 'int64_t': 64}.get(t[1:] if t.startswith('u') else t)
    return False if w is None else and_(bits <= w, t.startswith('u') == (not signed))


@entry('Y01', ['typed'])
def value_types():
    T = R.types
    bits = E.int('bits', 1, 64); sg = E.pick('signed', [False, True])
    h = R.helpers.TypeHelper()
    t = h.value_type(T.IntegerType('x', bits=bits, signed=sg))
    E.check_that(holds(t, bits, sg), 'integer-fits')
    # no wider than it must be: the value's type is part of the interface
    E.check_that(eq(int(t.strip('uint_')), SymInt(z3.If(ie(bits) <= 8, 8, z3.If(ie(bits) <= 16, 16, z3.If(ie(bits) <= 32, 32, 64)))) if not isinstance(bits, int) or isinstance(bits, SymInt) else 8 if bits <= 8 else 16 if bits <= 16 else 32 if bits <= 32 else 64), 'integer-type')
    f = T.FixedPointType('x', bits=bits, signed=sg, radix=E.pick('radix', [0, 7]))
    E.check_that(holds(h.member_type(f), bits, sg), 'fixed-point-member-fits')
    v = h.value_type(f)
    E.check_that(v in ('double', 'long double') and implies(bits > 53, v == 'long double'), 'fixed-point-value-exact') if not isinstance(bits, SymInt) else E.check_that(and_(v in ('double', 'long double'), implies(bits > 53, v == 'long double')), 'fixed-point-value-exact')
    E.reach('typed')


# ------------------------------------------------------------------------------------------------ Y02
def en(n): return getattr(R.enums, n)


@entry('Y02', ['accepted'])
def integer_timestamp():
    T = en('TSI')
    words({'none': T.NONE, 'utc': T.UTC, 'gps': T.GPS, 'other': T.OTHER, 'any': T.ANY}, 6, lambda t: R.make('!Timestamp', {'integer': t}).tsi.value, 'tsi')


@entry('Y02', ['accepted'])
def fractional_timestamp():
    T = en('TSF')
    words({'none': T.NONE, 'samples': T.SAMPLE_COUNT, 'picoseconds': T.REAL_TIME, 'free-running': T.FREE_RUNNING, 'any': T.ANY}, 13, lambda t: R.make('!Timestamp', {'fractional': t}).tsf.value, 'tsf')


@entry('Y02', ['accepted'])
def timestamp_mode():
    T = en('TSM')
    words({'fine': T.FINE, 'coarse': T.COARSE, 'any': T.ANY}, 8, lambda t: R.make('!Context', {'tsm': t, 'cif_0': R.make('!CIF0')}).header.tsm.value, 'tsm')


@entry('Y02', ['accepted'])
def spectrum_or_time():
    T = en('SPECTRUM_OR_TIME')
    words({'spectrum': T.SPECTRUM, 'time': T.TIME}, 9, lambda t: R.make('!Data', {'spectrum_or_time': t}).header.spectrum_or_time.value, 'spectrum-or-time')


@entry('Y02', ['accepted'])
def field_mode():
    def read(t):
        f = R.make('!CIF0', {'bandwidth': t}).bandwidth
        return bool(f.enabled), bool(f.required)
    words({'required': (True, True), 'optional': (True, False)}, 9, read, 'mode')


@entry('Y02', ['accepted'])
def identifier_format():
    T = en('IdentifierFormat'); which = E.pick('which', ['controllee_id', 'controller_id'])
    words({'word': (T.WORD, 32), 'uuid': (T.UUID, 128)}, 5,
          lambda t: (lambda f: (f.format, f.bits))(getattr(R.make('!Control', {which: t, 'cam': R.make('!ControlAcknowledgeMode'), 'cif_0': R.make('!CIF0')}), which)), 'identifier')


@entry('Y02', ['accepted'])
def action_mode():
    T = en('ActionMode')
    t0 = {'none': T.NO_ACTION, 'dry-run': T.DRY_RUN, 'execute': T.EXECUTE}
    def read(t):
        # `required` and `optional` are read as a mode
        if len(t) == 8: E.assume(and_(not_(eq(t, 'required')), not_(eq(t, 'optional'))))
        return R.make('!ControlAcknowledgeMode', {'action_mode': t, 'req_s': True}).action_mode.value
    words(t0, 9, read, 'action')


@entry('Y02', ['accepted'])
def entry_size():
    T = en('EntrySize')
    def read(t):
        l = R.make('!IndexList', {'entry_size': t})
        return l.entry_size.value, l.entries.type_.bits, l.template_type
    words({'8': (T.EIGHT_BIT, 8, 'uint8_t'), '16': (T.SIXTEEN_BIT, 16, 'uint16_t'), '32': (T.THIRTY_TWO_BIT, 32, 'uint32_t')}, 3, read, 'entry-size')


@entry('Y02', ['accepted'])
def entry_size_number():
    v = E.int('entry-size', -2, 70)
    l = rejected(lambda: R.make('!IndexList', {'entry_size': v}))
    ok = or_(eq(v, 8), eq(v, 16), eq(v, 32))
    if l is None: E.check_that(not_(ok), 'refused'); return
    E.reach('accepted')
    E.check_that(and_(ok, eq(l.entries.type_.bits, v), eq(l.template_type, 'uint%d_t' % (v if not isinstance(v, SymInt) else v.concrete()))), 'entry-bits')


def hexval(c, ok):
    c = z3.IntVal(ord(c)) if isinstance(c, str) and not isinstance(c, SymStr) else c.c[0]
    d, u, l = z3.And(c >= 48, c <= 57), z3.And(c >= 65, c <= 70), z3.And(c >= 97, c <= 102)
    ok.append(z3.Or(d, u, l)); return z3.If(d, c - 48, z3.If(u, c - 55, c - 87))


@entry('Y02', ['accepted', 'reserved'])
def oui():
    t = E.text('text', 7, 9) if TIER == 'quick' else E.text('text', 5, 10)
    c = rejected(lambda: R.make('!ClassID', {'oui': t, 'packet_code': 1, 'information_code': 2}))
    if E.concrete is not None and not isinstance(t, SymStr): sym_t = None
    ok, v = [], 0
    if len(t) == 8:
        h = [hexval(t[i], ok) for i in (0, 1, 3, 4, 6, 7)]
        for x in h: v = v * 16 + x
        good = and_(SymBool(z3.simplify(z3.And(*ok))), eq(t[2], '-'), eq(t[5], '-'))
        v = z3.simplify(v)
    else: good = False
    if E.concrete is not None: good, v = z3.is_true(z3.simplify(expr(good))), (v if isinstance(v, int) else v.as_long() if z3.is_int_value(v) else 0)
    reserved = and_(good, eq(SymInt(v) if not isinstance(v, int) else v, 0x0012A2))
    if c is None: E.check_that(or_(not_(good), reserved), 'oui-refused'); return
    E.reach('accepted')
    E.check_that(not_(reserved), 'reserved-oui-refused'); E.reach('reserved')
    E.check_that(and_(good, eq(c.oui.value, SymInt(v) if not isinstance(v, int) else v)), 'oui-value')


@entry('Y02', ['accepted'])
def class_codes():
    p, i = E.int('packet-code', 0, 65535), E.int('information-code', 0, 65535)
    c = R.make('!ClassID', E.pick('order', [{'oui': '11-22-33', 'packet_code': p, 'information_code': i}, {'information_code': i, 'packet_code': p, 'oui': '11-22-33'}]))
    E.check_that(and_(eq(c.packet_code.value, p), eq(c.information_code.value, i), eq(c.oui.value, 0x112233)), 'codes')
    E.check_that(bool(c.enabled and c.required), 'present')
    E.check_that(rejected(lambda: R.make('!ClassID', {'oui': '11-22-33', 'colour': p})) is None, 'unknown-refused')
    E.reach('accepted')


@entry('Y02', ['accepted'])
def stream_id_decimal():
    t = E.text('text', 1, 10)
    if E.concrete is None:
        E.assume(SymBool(z3.And(*[z3.And(c >= 48, c <= 57) for c in t.c])))
        v = 0
        for c in t.c: v = v * 10 + c - 48
        v = SymInt(v)
    else: v = int(t)
    s = R.make('!StreamID', t)
    E.reach('accepted')
    E.check_that(eq(s.value, v), 'stream-id'); E.check_that(bool(s.enabled and s.required), 'present')


@entry('Y02', ['accepted'])
def stream_id_hexadecimal():
    t = E.text('text', 1, 8)
    if E.concrete is None:
        ok, v = [], 0
        for ch in t: v = v * 16 + hexval(ch, ok)
        E.assume(SymBool(z3.And(*ok))); v = SymInt(v)
    else: v = int(t, 16)
    s = R.make('!StreamID', '0x' + t)
    E.reach('accepted')
    E.check_that(eq(s.value, v), 'stream-id'); E.check_that(bool(s.enabled and s.required), 'present')


@entry('Y02', ['refused'])
def stream_id_no_number():
    """a text that is not a numeral is refused"""
    t = E.text('text', 1, 4)
    num = lambda c: z3.Or(z3.And(c >= 48, c <= 57), c == 43, c == 45, c == 95, c == 32)
    if E.concrete is None: E.assume(SymBool(z3.Not(z3.And(*[num(c) for c in t.c])))); E.assume(not_(and_(eq(t[0], '0'), eq(t[1], 'x'))) if len(t) > 2 else True)
    E.check_that(rejected(lambda: R.make('!StreamID', t)) is None, 'no-number-refused')
    E.reach('refused')


# ------------------------------------------------------------------------------------------------ Y03
NAMES = {}
def names_of(tag):
    if tag not in NAMES: NAMES[tag] = [f.name for f in R.make(tag).fields if f.name != 'packed_0']
    return NAMES[tag]


def cif(tag, special):
    names = names_of(tag)
    plain = [n for n in names if n not in special]
    i = E.pick('first', list(range(len(plain)))); j = E.pick('second', [-1] + list(range(len(plain))))
    if i == j: j = -1
    m = {}; want = {}
    for k in (i, j):
        if k >= 0:
            t, w = mode('mode') if k == i else (E.pick('other-is', ['required', 'optional']),) * 2
            m[plain[k]] = t; want[plain[k]] = w
    return check_cif(R.make(tag, m), names, want)


def check_cif(c, names, want):
    for n in names:
        f = getattr(c, n)
        if n == 'change_indicator': E.check_that(bool(f.enabled and f.required), 'change-indicator-always'); continue
        E.check_that(bool(f.enabled) == (n in want), 'present-as-defined')
        E.check_that(bool(f.required) == (want.get(n) == 'required'), 'required-as-defined')
        E.check_that(bool(f.is_optional) == (want.get(n) == 'optional'), 'optional-as-defined')
    E.check_that(bool(c.enabled), 'word-present')
    if 'change_indicator' not in names:
        E.check_that(bool(c.is_optional) == (len(want) > 0 and all(w == 'optional' for w in want.values())), 'word-optional-iff-all-fields-are')
    else: E.check_that(not c.is_optional, 'first-word-required')
    E.reach('read'); return c


@entry('Y03', ['read'])
def cif0_fields(): cif('!CIF0', ())


@entry('Y03', ['read'])
def cif1_fields(): cif('!CIF1', ('sector_step_scan', 'index_list'))


@entry('Y03', ['read'])
def cif2_fields():
    c = cif('!CIF2', ())
    for n in ('controllee_uuid', 'controller_uuid'):
        f = getattr(c, n)
        if f.enabled: E.check_that(f.type_.format == en('IdentifierFormat').UUID and f.type_.bits == 128, 'uuid-size')


@entry('Y03', ['read'])
def cif_all_but_one():
    """every field but one given, all with the same mode"""
    tag, special = E.pick('word', [('!CIF0', ()), ('!CIF1', ('sector_step_scan', 'index_list')), ('!CIF2', ())])
    names = names_of(tag)
    plain = [n for n in names if n not in special]
    k = E.pick('left-out', [None] + plain); t = w = E.pick('mode', ['required', 'optional']); odd = E.pick('differs', [None] + plain[::5])
    m = {n: t for n in plain if n != k}; want = {n: w for n in m}
    if odd in m:
        m[odd] = want[odd] = E.pick('other', ['required', 'optional'])
    check_cif(R.make(tag, m), names, want)


@entry('Y03', ['read'])
def structured_fields():
    """the fields that are given as structures"""
    which = E.pick('field', ['discrete_io_32', 'discrete_io_64', 'buffer_size', 'reference_level'])
    t, w = mode('mode')
    tag, inner = {'discrete_io_32': ('!CIF1', '!DiscreteIO32'), 'discrete_io_64': ('!CIF1', '!DiscreteIO64'), 'buffer_size': ('!CIF1', '!DIFI1p2BufferSize'), 'reference_level': ('!CIF0', '!DIFI1p2ReferenceLevel')}[which]
    names = names_of(tag)
    v = R.make(inner, dict({'mode': t}, **({'flag': 'bool'} if 'discrete' in which else {})))
    c = R.make(tag, {which: v})
    E.check_that(getattr(c, which).type_ is v, 'structure-kept')
    check_cif(c, names, {which: w})


@entry('Y03', ['read'])
def attribute_names():
    """attributes of the fields: those listed, required whatever the mode"""
    names = [f.name for f in R.make('!CIF7').attributes.fields if f.name != 'packed_0']
    a, b = E.pick('first', names), E.pick('second', [None] + names)
    t = E.pick('mode', ['required', 'optional'])
    m = {n: 'required' for n in (a, b) if n}; m[a] = t
    c = rejected(lambda: R.make('!CIF7', m))
    E.check_that(c is not None, 'attribute-refused')
    for n in names:
        x = getattr(c.attributes, n)
        E.check_that(bool(x.enabled) == (n in m) and bool(x.required) == (n in m), 'attributes-as-defined')
    p = R.make('!Context', {'cif_0': R.make('!CIF0', {'gain': 'required'}), 'cif_7': c})
    E.check_that(bool(p.cif_7.enabled) and p.cif_7 is c, 'attributes-kept'); E.reach('read')


@entry('Y03', ['refused'])
def unknown_names():
    """a name that is no option of that element is refused"""
    tag, ok = E.pick('element', [('!CIF0', 'required'), ('!CIF1', 'required'), ('!CIF2', 'required'), ('!ControlAcknowledgeMode', True), ('!Data', 1), ('!Context', 1), ('!Control', 1), ('!Timestamp', 'none'), ('!ClassID', 1), ('!Trailer', 'required'), ('!IndexList', 8)])
    nm = E.pick('name', ['bandwith', 'colour', 'Bandwidth', 'cif_9', 'req_z', 'x'])
    E.check_that(rejected(lambda: R.make(tag, {nm: ok})) is None, 'unknown-refused'); E.reach('refused')


CAM = ['permit_partial', 'permit_warnings', 'permit_errors', 'req_v', 'req_x', 'req_s', 'req_w', 'req_er']


def cam_allowed(a, g): return or_(a != 'none', and_(g('req_s'), not_(or_(g('req_x'), g('req_v'), g('req_w'), g('req_er')))))


@entry('Y03', ['read', 'refused'])
def cam_bits():
    """all eight permissions and requests as true or false, with every action mode"""
    b = {n: E.bool(n) for n in CAM}
    a = E.pick('action', [None, 'none', 'dry-run', 'execute']); first = E.pick('action-first', [True, False])
    m = dict(b)
    if a: m = dict({'action_mode': a}, **b) if first else dict(b, action_mode=a)
    c = rejected(lambda: R.make('!ControlAcknowledgeMode', m))
    ok = cam_allowed(a, lambda n: b[n])
    if c is None: E.check_that(not_(ok), 'allowed-refused'); E.reach('refused'); return
    E.check_that(ok, 'contradiction-accepted')
    for n in CAM:
        f = getattr(c, n)
        E.check_that(and_(eq(f.enabled, b[n]), eq(f.required, b[n]), eq(f.value, b[n])), 'bit-as-defined')
    E.check_that(eq(c.action_mode.enabled, a is not None), 'action-present')
    E.reach('read')


@entry('Y03', ['read'])
def cam_modes():
    """each of them as required or optional, next to another one"""
    n1 = E.pick('first', CAM); n2 = E.pick('second', [n for n in CAM if n != n1])
    t, w = mode('mode'); b = E.bool('other')
    c = R.make('!ControlAcknowledgeMode', {n1: t, n2: b})
    f, g = getattr(c, n1), getattr(c, n2)
    E.check_that(bool(f.enabled) and bool(f.required) == (w == 'required') and bool(f.value) == (w == 'required'), 'mode-as-defined')
    E.check_that(and_(eq(g.enabled, b), eq(g.required, b), eq(g.value, b)), 'bit-as-defined')
    for n in CAM:
        if n not in (n1, n2): E.check_that(not getattr(c, n).enabled, 'others-absent')
    E.reach('read')


@entry('Y03', ['read'])
def control_identifiers():
    a, b = E.pick('controllee', [None, 'word', 'uuid']), E.pick('controller', [None, 'word', 'uuid'])
    tag = E.pick('packet', ['!Control', '!ExtensionControl'])
    m = {'cam': R.make('!ControlAcknowledgeMode', {'req_x': True}), 'cif_0': R.make('!CIF0')}
    if a: m['controllee_id'] = a
    if b: m['controller_id'] = b
    p = R.make(tag, m); F = en('IdentifierFormat')
    for nm, v in (('controllee', a), ('controller', b)):
        e, f, i = getattr(p.cam, nm + '_enable'), getattr(p.cam, nm + '_format'), getattr(p, nm + '_id')
        E.check_that(bool(i.enabled) == bool(v) and bool(e.enabled) == bool(v) and bool(e.value) == bool(v), 'enable-bit')
        E.check_that(bool(f.enabled) == bool(v) and (not v or f.value == (F.UUID if v == 'uuid' else F.WORD) and f.value == i.format), 'format-bit')
    P = en('PacketType')
    E.check_that(p.header.packet_type.value == (P.EXTENSION_COMMAND if 'Ext' in tag else P.COMMAND) and not p.header.acknowledge_packet.value, 'packet-type')
    E.check_that(bool(p.stream_id.enabled and p.message_id.enabled), 'mandatory-fields')
    E.reach('read')


def prologue(m):
    """class identifier and timestamp, each present or not"""
    i, f = E.pick('integer', [None, 'none', 'utc', 'gps', 'other', 'any']), E.pick('fractional', [None, 'none', 'samples', 'picoseconds', 'free-running', 'any'])
    c = E.pick('class-id', [False, True])
    if c: m['class_id'] = R.make('!ClassID', {'oui': '11-22-33', 'packet_code': 1, 'information_code': 2})
    if i or f: m['timestamp'] = R.make('!Timestamp', {k: v for k, v in (('integer', i), ('fractional', f)) if v})
    return i, f, c


def check_prologue(p, i, f, c):
    I, F = en('TSI'), en('TSF'); h = p.header
    E.check_that(bool(h.class_id_enable.value) == c and bool(p.class_id.enabled) == c, 'class-id-bit')
    ti = {None: I.NONE, 'none': I.NONE, 'utc': I.UTC, 'gps': I.GPS, 'other': I.OTHER, 'any': I.ANY}[i]
    tf = {None: F.NONE, 'none': F.NONE, 'samples': F.SAMPLE_COUNT, 'picoseconds': F.REAL_TIME, 'free-running': F.FREE_RUNNING, 'any': F.ANY}[f]
    E.check_that(h.tsi.value == ti, 'tsi-bits'); E.check_that(h.tsf.value == tf, 'tsf-bits')
    E.check_that(bool(p.timestamp.integer.enabled) == (ti != I.NONE), 'integer-present'); E.check_that(bool(p.timestamp.fractional.enabled) == (tf != F.NONE), 'fractional-present')


@entry('Y03', ['read'])
def data_header():
    m = {}
    sid = E.pick('stream-id', [False, True])
    tr = E.pick('trailer', [None, 'plain', 'sample-frame', 'user']); st = E.pick('spectrum-or-time', [None, 'spectrum', 'time'])
    i, f, c = prologue(m)
    if sid: m['stream_id'] = R.make('!StreamID')
    if tr: m['trailer'] = R.make('!Trailer', dict({'sample_frame': E.pick('trailer-mode', ['required', 'optional'])}, **E.pick('next-to', [{}, {'user_defined_a': 'enable_indicator'}])) if tr == 'sample-frame' else {'user_defined_a': 'enable_indicator'} if tr == 'user' else None)
    if st: m['spectrum_or_time'] = st
    p = R.make('!Data', m); P = en('PacketType'); h = p.header
    E.check_that(h.packet_type.value == (P.SIGNAL_DATA_STREAM_ID if sid else P.SIGNAL_DATA), 'packet-type')
    E.check_that(bool(h.trailer_included.value) == bool(tr), 'trailer-bit')
    E.check_that(bool(h.not_v49d0.value) == (tr == 'sample-frame' or st == 'spectrum'), 'not-v49.0-bit')
    S = en('SPECTRUM_OR_TIME')
    E.check_that(h.spectrum_or_time.value == (S.SPECTRUM if st == 'spectrum' else S.TIME), 'spectrum-bit')
    check_prologue(p, i, f, c)
    E.reach('read')


@entry('Y03', ['read'])
def context_header():
    m = {'cif_0': R.make('!CIF0', {'bandwidth': 'required'})}
    tag = E.pick('packet', ['!Context', '!ExtensionContext']); t = E.pick('tsm', [None, 'fine', 'coarse', 'any'])
    c1, c2, c7 = E.pick('cif_1', [False, True]), E.pick('cif_2', [False, True]), E.pick('cif_7', [False, True])
    i, f, c = prologue(m)
    o1, o2 = ('optional', 'required') if t in (None, 'coarse') else ('required', 'optional')
    if c1: m['cif_1'] = R.make('!CIF1', {'aux_gain': o1})
    if c2: m['cif_2'] = R.make('!CIF2', {'track_id': o2})
    if c7: m['cif_7'] = R.make('!CIF7', {'current_value': 'required', 'mean_value': 'required'})
    if t: m['tsm'] = t
    p = R.make(tag, m); P, M = en('PacketType'), en('TSM'); h = p.header
    E.check_that(h.packet_type.value == (P.CONTEXT if tag == '!Context' else P.EXTENSION_CONTEXT), 'packet-type')
    E.check_that(bool(h.not_v49d0.value) == (c1 or c2 or c7), 'not-v49.0-bit')
    E.check_that(h.tsm.value == {None: M.FINE, 'fine': M.FINE, 'coarse': M.COARSE, 'any': M.ANY}[t], 'tsm-bit')
    E.check_that(bool(p.cif_1.enabled) == c1 and bool(p.cif_2.enabled) == c2 and bool(p.cif_0.enabled), 'indicator-words')
    E.check_that(bool(p.stream_id.enabled), 'stream-id')
    check_prologue(p, i, f, c)
    E.reach('read')


@entry('Y03', ['read'])
def acknowledge_follows_control():
    """every combination of requests, identifiers and indicator words"""
    b = {n: E.bool(n) for n in CAM}
    cm = dict(b)
    m = {'cam': R.make('!ControlAcknowledgeMode', cm)}
    sel = E.pick('fields', [(('bandwidth',), ('aux_gain',), ()), (('gain', 'sample_rate'), (), ('track_id', 'function_id')), (('device_id',), ('range', 'health_status'), ('citing_sid',)), ((), (), ())])
    m['cif_0'] = R.make('!CIF0', {n: 'required' if k % 2 == 0 else 'optional' for k, n in enumerate(sel[0])})
    if sel[1]: m['cif_1'] = R.make('!CIF1', {n: 'optional' for n in sel[1]})
    if sel[2]: m['cif_2'] = R.make('!CIF2', {n: 'required' for n in sel[2] if hasattr(R.make('!CIF2'), n)})
    i, f, c = E.pick('prologue', [(None, None, False), ('gps', 'picoseconds', True), ('none', 'samples', False)])
    if c: m['class_id'] = R.make('!ClassID', {'oui': '11-22-33', 'packet_code': 1, 'information_code': 2})
    if i: m['timestamp'] = R.make('!Timestamp', {'integer': i, 'fractional': f})
    m['controllee_id'], m['controller_id'] = E.pick('identifiers', [('word', 'uuid'), ('uuid', 'word')])
    p = R.make('!Control', m)
    a = R.make('!Ack', {'responds_to': 'C'})
    a.responds_to = 'C'
    got = dict(R.read({'C': p, 'CAck': a}))
    E.check_that(list(got)[:2] == ['C', 'CAck'] and got['C'] is p, 'both-read')
    a = got['CAck']
    for n in CAM:
        f_ = getattr(a.cam, n.replace('req_', 'ack_'))
        E.check_that(and_(eq(f_.enabled, b[n]), eq(f_.value, b[n])), 'request-mirrored')
    E.check_that(bool(a.header.acknowledge_packet.value), 'acknowledge-bit')
    check_prologue(a, i, f, c)
    for nm in ('controllee', 'controller'):
        E.check_that(a.cam.__dict__[nm + '_enable'].value and getattr(a, nm + '_id').format == getattr(p, nm + '_id').format and a.cam.__dict__[nm + '_format'].value == getattr(p, nm + '_id').format, 'identifiers')
    vx = or_(b['req_v'], b['req_x'])
    for k in range(3):
        cp = getattr(p, 'cif_%d' % k); on = bool(cp.enabled)
        E.check_that(eq(getattr(a, 'cif_%d' % k).enabled, and_(on, b['req_s'])), 'state-words')
        for kind in ('wif', 'eif'):
            w = getattr(a, '%s_%d' % (kind, k))
            E.check_that(eq(w.enabled, and_(on, vx)), 'warning-words')
            for fl in cp.fields:
                if fl.name in [x.name for x in w.fields] and fl.name not in ('packed_0', 'change_indicator'):
                    E.check_that(eq(getattr(w, fl.name).enabled, and_(on, fl.enabled, vx)), 'warning-fields')
    E.reach('read')


@entry('Y03', ['read'])
def acknowledge_identifiers():
    """the acknowledgment carries the identifiers, permissions and codes of the packet it responds to"""
    v, w = E.pick('controllee', [None, 'word', 'uuid']), E.pick('controller', [None, 'word', 'uuid'])
    req, mode = E.pick('request', [('req_s', 'none'), ('req_x', 'execute'), ('req_v', 'dry-run'), (None, 'execute'), ('req_x', None)])
    perm = {n: E.bool(n) for n in ('permit_partial', 'permit_warnings', 'permit_errors')}
    ext = E.pick('extension', [False, True])
    code = E.int('packet-code', 0, 65535)
    cm = dict(perm)
    if mode: cm['action_mode'] = mode
    if req: cm[req] = True
    m = {'cam': R.make('!ControlAcknowledgeMode', cm), 'cif_0': R.make('!CIF0', {'gain': 'required'}),
         'class_id': R.make('!ClassID', {'oui': '11-22-33', 'packet_code': code, 'information_code': 2})}
    if v: m['controllee_id'] = v
    if w: m['controller_id'] = w
    p = R.make('!ExtensionControl' if ext else '!Control', m)
    a = R.make('!ExtensionAck' if ext else '!Ack', {'responds_to': 'C'})
    a.responds_to = 'C'
    a = dict(R.read({'C': p, 'CAck': a}))['CAck']
    F = en('IdentifierFormat'); P = en('PacketType')
    E.check_that(a.header.packet_type.value == (P.EXTENSION_COMMAND if ext else P.COMMAND) and bool(a.header.acknowledge_packet.value), 'packet-type')
    for nm, x in (('controllee', v), ('controller', w)):
        e, f, i = getattr(a.cam, nm + '_enable'), getattr(a.cam, nm + '_format'), getattr(a, nm + '_id')
        E.check_that(bool(i.enabled) == bool(x) and bool(e.enabled) == bool(x) and bool(e.value) == bool(x), 'enable-bit')
        E.check_that(not x or (f.value == (F.UUID if x == 'uuid' else F.WORD) and i.format == f.value), 'format-bit')
    for n in perm:
        E.check_that(eq(getattr(a.cam, n).value, perm[n]), 'permissions')
    A = en('ActionMode')
    if mode: E.check_that(a.cam.action_mode.value == {'none': A.NO_ACTION, 'dry-run': A.DRY_RUN, 'execute': A.EXECUTE}[mode] and bool(a.cam.action_mode.enabled), 'action-mode')
    E.check_that(bool(a.stream_id.enabled) and bool(a.message_id.enabled), 'mandatory-fields')
    E.check_that(bool(a.class_id.enabled), 'class-id'); E.check_that(eq(a.class_id.packet_code.value, code), 'class-code')
    for k in range(1, 3):
        E.check_that(not getattr(a, 'cif_%d' % k).enabled and not getattr(a, 'wif_%d' % k).enabled and not getattr(a, 'eif_%d' % k).enabled, 'no-further-words')
    E.reach('read')


@entry('Y03', ['read', 'refused'])
def information_classes():
    """packets listed in information classes carry the code of their class"""
    n1, n2 = E.int('code', 0, 65535), E.int('code', 0, 65535)
    ps = {n: R.make('!Data', {'class_id': R.make('!ClassID', {'oui': '11-22-33', 'packet_code': k, 'information_code': 7})}) for k, n in enumerate(('A', 'B', 'C'))}
    l1 = E.pick('first', [['A'], ['B', 'A'], ['A', 'B', 'C']]); l2 = E.pick('second', [None, ['C'], ['B', 'C'], ['Z']])
    d = {}
    hidden = E.pick('hidden', [False, True])
    if hidden: d['.h'] = {'x': 1}
    d.update(ps)
    d['I'] = R.make('!InformationClass', {'code': n1, 'packet_classes': list(l1)})
    if l2: d['J'] = R.make('!InformationClass', {'code': n2, 'packet_classes': list(l2)})
    out = rejected(lambda: R.read(d, {}, lambda n, v: v.class_id.information_code.value if n in ps else None))
    if out is None: E.check_that(l2 == ['Z'], 'known-packets-accepted'); E.reach('refused'); return
    E.check_that(l2 != ['Z'], 'unknown-packet-refused')
    want = [(n, n1) for n in l1] + [('I', None)] + ([(n, n2) for n in l2] + [('J', None)] if l2 else []) + [('files', None)]
    E.check_that([n for n, _ in out] == [n for n, _ in want], 'listed-packets-only')
    for (_, g), (_, w) in zip(out, want):
        if w is not None: E.check_that(eq(g, w), 'code-of-its-class')
    E.reach('read')


@entry('Y03', ['read', 'refused'])
def included_files():
    """definitions of included files are available, in order, and the files are reported"""
    F1 = {'A': R.make('!Data'), '.h': 1, 'C': R.make('!Control', {'cam': R.make('!ControlAcknowledgeMode', {'req_v': True}), 'cif_0': R.make('!CIF0', {'gain': 'required'})})}
    F2 = {'B': R.make('!Data', {'stream_id': R.make('!StreamID')}), 'include': ['sub.yaml']}
    F3 = {'S': R.make('!Data')}
    inc = E.pick('include', [['one.yaml'], ['one.yaml', 'two.yaml'], ['two.yaml', 'one.yaml'], 'one.yaml'])
    ack = E.pick('acknowledge', [None, 'C', 'Z']); cls = E.pick('class', [None, ['A'], ['S', 'A']])
    d = {}
    if E.pick('include-first', [True, False]) or isinstance(inc, str) or ack or cls: d['include'] = inc
    d['D'] = R.make('!Data')
    d.setdefault('include', inc)
    if ack: d['K'] = R.make('!Ack', {'responds_to': ack})
    if cls: d['I'] = R.make('!InformationClass', {'code': 3, 'packet_classes': list(cls)})
    out = rejected(lambda: R.read(d, {'one.yaml': F1, 'two.yaml': F2, 'sub.yaml': F3}))
    bad = isinstance(inc, str) or ack == 'Z' or cls and 'S' in cls and 'two.yaml' not in inc
    if out is None: E.check_that(bad, 'readable-refused'); E.reach('refused'); return
    E.check_that(not bad, 'unreadable-accepted')
    sub = {'one.yaml': [('A', F1['A']), ('C', F1['C'])], 'two.yaml': [('B', F2['B']), ('S', F3['S'])]}
    order = [x for k in d for x in ([y for f in inc for y in sub[f]] if k == 'include' else [(k, d[k])] if k != 'I' else [])]
    names = dict(order)
    want = [(n, names[n]) for n in cls] + [('I', d['I'])] if cls else order
    got = [(n, v) for n, v in out if n != 'files']
    E.check_that([n for n, _ in got] == [n for n, _ in want] and all(a is b for (_, a), (_, b) in zip(got, want)), 'definitions-in-order')
    E.check_that(out[-1][0] == 'files' and [f for f in out[-1][1] if f in inc] == inc, 'files-reported')
    if ack: E.check_that(bool(dict(order)['K'].cam.ack_v.enabled) and bool(dict(order)['K'].eif_0.gain.enabled), 'acknowledge-of-included')
    E.reach('read')


@entry('Y01', ['refused'])
def foreign_subfields():
    """subfields of other kinds are refused"""
    what = E.pick('element', ['!StreamID', '!DiscreteIO32', '!DiscreteIO64', '!Trailer'])
    v = E.pick('value', ['boolean', 'text', 2.5, None])
    good = {'!StreamID': R.make('!IntegerType', {'bits': 4})}.get(what, 'enable_indicator')
    nm = 'user_defined_x' if what == '!Trailer' else 'x'
    E.check_that(rejected(lambda: R.make(what, {nm: good})) is not None, 'own-kind-accepted')
    if what == '!Trailer': return
    E.check_that(rejected(lambda: R.make(what, {nm: v})) is None, 'foreign-refused'); E.reach('refused')


# ------------------------------------------------------------------------------------------------ Y04
def dump(x, skip=('packet_name',)):
    """everything a definition says, as (path, leaf) pairs"""
    out, seen = [], []
    def go(p, v):
        if isinstance(v, (SymBool, SymInt, SymStr, str, int, float, type(None))): out.append((p, v)); return
        if isinstance(v, (list, tuple)):
            out.append((p + '#', len(v)))
            for i, y in enumerate(v): go('%s[%d]' % (p, i), y)
        elif isinstance(v, dict):
            for k in sorted(v, key=str): go('%s.%s' % (p, k), v[k])
        elif isinstance(v, type): out.append((p, v.__name__))
        elif isinstance(v, __import__('enum').Enum): out.append((p, str(v)))
        elif hasattr(v, '__dict__'):
            if any(v is s for s in seen): return
            seen.append(v)
            out.append((p, type(v).__name__))
            if isinstance(v, type(R.enums.BinaryEnum)): go(p + '.members', {k: m.value for k, m in v.__members__.items()})
            for k in sorted(v.__dict__):
                if k not in skip: go('%s.%s' % (p, k), v.__dict__[k])
            seen.pop()
        else: out.append((p, repr(v)))
    go('', x)
    return out


def kind(v): return bool if isinstance(v, (bool, SymBool)) else int if isinstance(v, int) else str if isinstance(v, str) else type(v)


def same(a, b):
    """the two dumps agree; a bit may be given as 1 or as true"""
    if [p for p, _ in a] != [p for p, _ in b]: return False
    r = []
    for (_, x), (_, y) in zip(a, b):
        if x is y: continue
        if kind(x) is not kind(y): return False
        r.append(eq(x, y))
    return and_(*r) if r else True


class Parts:
    """options with symbolic content; every call of a builder makes a new, equal option"""
    def __init__(self):
        self.code, self.info = E.int('packet-code', 0, 65535), E.int('information-code', 0, 65535)
        self.w = E.int('width', 1, 16)
        self.b = {n: E.bool(n) for n in ('req_v', 'req_x', 'permit_partial')}
    def build(self, n, order=None):
        o = order or (lambda m: m)
        M = lambda tag, m: R.make(tag, o(m))
        if n == 'class_id': return M('!ClassID', {'oui': '11-22-33', 'packet_code': self.code, 'information_code': self.info})
        if n == 'stream_id': return R.make('!StreamID', {'a': R.make('!IntegerType', {'bits': self.w}), 'b': R.make('!IntegerType', {'bits': 7})})
        if n == 'timestamp': return M('!Timestamp', {'integer': 'none', 'fractional': 'picoseconds'})
        if n == 'timestamp2': return M('!Timestamp', {'integer': 'any', 'fractional': 'none'})
        if n == 'trailer': return M('!Trailer', {'sample_frame': 'required', 'user_defined_x': 'enable_indicator'})
        if n == 'cif_0': return M('!CIF0', {'bandwidth': 'required', 'gain': 'optional', 'reference_level': M('!DIFI1p2ReferenceLevel', {'mode': 'optional'})})
        if n == 'cif_1': return M('!CIF1', {'aux_gain': 'optional', 'index_list': R.make('!IndexList', {'entry_size': 16}), 'buffer_size': R.make('!DIFI1p2BufferSize', {'mode': 'required'}), 'discrete_io_64': R.make('!DiscreteIO64', {'mode': 'optional', 'a': self.w, 'b': ['x', 'y', 'z'], 'c': 'bool'})})
        if n == 'scan': return M('!CIF1', {'sector_step_scan': R.make('!SectorStepScan', {'subfield_cif': M('!SectorStepScanCIF', {'f2_stop_frequency': 'required', 'resolution_bandwidth': 'required'})}), 'range': 'required'})
        if n == 'cif_2': return M('!CIF2', {'track_id': 'optional', 'controllee_uuid': 'required', 'function_id': 'required'})
        if n == 'cif_7': return M('!CIF7', {'current_value': 'required', 'mean_value': 'required', 'standard_deviation': 'required'})
        if n == 'cam': return M('!ControlAcknowledgeMode', dict(self.b, req_s='optional', action_mode='execute'))
        return {'controllee_id': 'uuid', 'controller_id': 'word', 'tsm': 'coarse', 'spectrum_or_time': 'spectrum'}[n]


KINDS = {'data': ('!Data', ['class_id', 'stream_id', 'timestamp', 'trailer', 'spectrum_or_time']),
         'data-plain': ('!Data', []),
         'data-two': ('!Data', ['timestamp2', 'trailer']),
         'context': ('!Context', ['class_id', 'stream_id', 'timestamp2', 'cif_0', 'cif_1', 'cif_2', 'tsm']),
         'context-scan': ('!ExtensionContext', ['timestamp', 'cif_0', 'scan', 'cif_7']),
         'context-plain': ('!Context', []),
         'control': ('!Control', ['class_id', 'stream_id', 'timestamp', 'cam', 'controllee_id', 'controller_id', 'cif_0', 'cif_1']),
         'control-scan': ('!ExtensionControl', ['cam', 'controller_id', 'cif_0', 'scan', 'cif_2'])}


def packet(ps, k, opts=None, order=None, at=lambda ps, n, o: ps.build(n, o)):
    tag, names = KINDS[k]
    key = lambda n: {'timestamp2': 'timestamp', 'scan': 'cif_1'}.get(n, n)
    return R.make(tag, {key(n): at(ps, n, order) for n in (opts or names)})


def permuted(l, i, j):
    """element i moved to place j: these generate every order"""
    l = list(l); x = l.pop(i % len(l)); l.insert(j % (len(l) + 1), x); return l


@entry('Y04', ['compared'])
def order_of_options():
    ps = Parts(); k = E.pick('packet', [n for n in KINDS if len(KINDS[n][1]) > 1])
    names = KINDS[k][1]
    how = E.pick('order', ['reversed', 'move', 'move-both'])
    if how == 'reversed': l = names[::-1]
    else: l = permuted(names, E.pick('from', list(range(len(names)))), E.pick('to', list(range(len(names)))))
    if how == 'move-both': l = l[::-1]
    E.check_that(same(dump(packet(ps, k)), dump(packet(ps, k, l))), 'order-irrelevant'); E.reach('compared')


@entry('Y04', ['compared'])
def order_within_options():
    ps = Parts(); k = E.pick('packet', ['data', 'data-two', 'context', 'context-scan', 'control', 'control-scan'])
    how = E.pick('order', ['reversed', 'rotated', 'last-first'])
    f = {'reversed': lambda m: dict(list(m.items())[::-1]), 'rotated': lambda m: dict(permuted(m.items(), 0, -1)), 'last-first': lambda m: dict(permuted(m.items(), -1, 0))}[how]
    E.check_that(same(dump(packet(ps, k)), dump(packet(ps, k, None, f))), 'order-irrelevant'); E.reach('compared')


@entry('Y04', ['compared'])
def acknowledge_mode_order():
    """the requests and permissions in any order, with the action mode anywhere"""
    b = {n: E.bool(n) for n in CAM}; a = E.pick('action', [None, 'none', 'dry-run', 'execute'])
    m = list(b.items()) + ([('action_mode', a)] if a else [])
    l = permuted(m, E.pick('from', list(range(9))), E.pick('to', list(range(9))))
    if E.pick('reversed', [False, True]): l = l[::-1]
    x, y = rejected(lambda: R.make('!ControlAcknowledgeMode', dict(m))), rejected(lambda: R.make('!ControlAcknowledgeMode', dict(l)))
    E.check_that((x is None) == (y is None), 'order-decides-refusal')
    if x is not None: E.check_that(same(dump(x), dump(y)), 'order-irrelevant'); E.reach('compared')


@entry('Y04', ['compared'])
def neighbours():
    """a definition read before, after and between others is the same; reading others changes nothing in it"""
    ps, qs = Parts(), Parts()
    k, o = E.pick('packet', list(KINDS)), E.pick('other', list(KINDS))
    p = packet(ps, k); d = dump(p)
    q = packet(qs, o)
    if o.startswith('control'):
        a = R.make('!Ack' if o == 'control' else '!ExtensionAck', {'responds_to': 'Q'}); a.responds_to = 'Q'
        list(R.read({'Q': q, 'P': p, 'QAck': a} if E.pick('between', [False, True]) else {'P': p, 'Q': q, 'QAck': a}))
    E.check_that(same(d, dump(p)), 'changed-by-a-later-definition')
    E.check_that(same(d, dump(packet(ps, k))), 'depends-on-earlier-definitions')
    E.reach('compared')


# for the two timestamp formats of the header only their values say anything
def said(d): return [(n, v) for n, v in d if n not in SILENT]
SILENT = ['.header.%s.%s' % (n, a) for n in ('tsi', 'tsf') for a in ('enabled', 'required')]


@entry('Y04', ['compared'])
def shared_options():
    """two definitions sharing an option by reference are what they are with options of their own"""
    ps = Parts()
    k, o = E.pick('packet', list(KINDS)), E.pick('other', list(KINDS))
    had = {}
    def shared(ps, n, order):
        if n not in had: had[n] = ps.build(n, order)
        return had[n]
    p, q = packet(ps, k, at=shared), packet(ps, o, at=shared)
    E.check_that(same(said(dump(packet(ps, k))), said(dump(p))), 'sharing-changes-the-first')
    E.check_that(same(said(dump(packet(ps, o))), said(dump(q))), 'sharing-changes-the-second')
    E.reach('compared')


@entry('Y04', ['compared'])
def acknowledge_alone():
    """an acknowledgement depends on its command only, whatever else is in the file; the command keeps what it said"""
    ps, qs = Parts(), Parts()
    k, o = E.pick('packet', ['control', 'control-scan']), E.pick('other', list(KINDS))
    def ack(): a = R.make('!Ack', {'responds_to': 'P'}); a.responds_to = 'P'; return a
    p = packet(ps, k); d = dump(p)
    alone = dump(dict(R.read({'P': p, 'PAck': ack()}))['PAck'])
    E.check_that(same(d, dump(p)), 'command-changed-by-its-acknowledgement')
    had = {}
    def at(x, n, order):
        if n not in had: had[n] = ps.build(n, order)
        return had[n]
    if E.pick('shared', [False, True]): p2, q = packet(ps, k, at=at), packet(ps, o, at=at)
    else: p2, q = packet(ps, k), packet(qs, o)
    defs = {'P': p2, 'Q': q, 'PAck': ack()}
    if o.startswith('control'):
        b = R.make('!Ack', {'responds_to': 'Q'}); b.responds_to = 'Q'
        defs = {'Q': q, 'P': p2, 'QAck': b, 'PAck': ack()} if E.pick('other-first', [False, True]) else {'P': p2, 'Q': q, 'PAck': ack(), 'QAck': b}
    among = dict(R.read(defs))
    E.check_that(same(said(alone), said(dump(among['PAck']))), 'acknowledgement-depends-on-others')
    E.check_that(same(said(d), said(dump(among['P']))), 'command-depends-on-others')
    E.reach('compared')


ELEMENTS = {'!ControlAcknowledgeMode': lambda: {n: True for n in CAM}, '!CIF0': lambda: {n: 'optional' for n in names_of('!CIF0')},
            '!CIF1': lambda: dict({n: 'optional' for n in names_of('!CIF1') if n not in ('sector_step_scan', 'index_list')}, index_list=R.make('!IndexList', {'entry_size': 16})),
            '!CIF2': lambda: {n: 'optional' for n in names_of('!CIF2')}, '!Trailer': lambda: {n: 'optional' for n in [f.name for f in R.make('!Trailer').fields if f.name != 'packed_0' and not f.name.endswith('_enable')]},
            '!CIF7': lambda: {f.name: 'required' for f in R.make('!CIF7').attributes.fields if f.name != 'packed_0'},
            '!Timestamp': lambda: {'integer': 'gps', 'fractional': 'samples'}, '!ClassID': lambda: {'oui': '11-22-33', 'packet_code': 5, 'information_code': 6},
            '!StreamID': lambda: {'a': R.make('!IntegerType', {'bits': 3})}, '!DiscreteIO32': lambda: {'mode': 'optional', 'a': 'bool', 'b': 5}, '!DiscreteIO64': lambda: {'mode': 'optional', 'a': ['x', 'y'], 'b': 'enable_indicator'},
            '!DIFI1p2BufferSize': lambda: {'mode': 'optional'}, '!DIFI1p2ReferenceLevel': lambda: {'mode': 'optional'},
            '!SectorStepScanCIF': lambda: {'f2_stop_frequency': 'required', 'resolution_bandwidth': 'required'}}
HOLDERS = {'!ControlAcknowledgeMode': 'cam', '!CIF0': 'cif_0', '!CIF1': 'cif_1', '!CIF2': 'cif_2', '!CIF7': 'cif_7', '!Trailer': 'trailer', '!Timestamp': 'timestamp', '!ClassID': 'class_id', '!StreamID': 'stream_id'}
OWNERS = {'!Data': ['timestamp', 'class_id', 'stream_id', 'trailer'], '!Context': ['timestamp', 'class_id', 'stream_id', 'cif_0', 'cif_1', 'cif_2', 'cif_7'], '!ExtensionContext': ['cif_0', 'cif_2', 'stream_id'],
          '!Control': ['timestamp', 'class_id', 'stream_id', 'cif_0', 'cif_1', 'cif_2', 'cam'], '!ExtensionControl': ['cif_1', 'cam', 'timestamp']}


@entry('Y04', ['compared'])
def nothing_left_behind():
    """an empty or small element reads the same before and after another of its kind in which everything is given"""
    t = E.pick('element', list(ELEMENTS))
    full = ELEMENTS[t]()
    one = E.pick('given', [None] + list(full)[::max(1, len(full) // 8)])
    small = lambda: R.make(t, {one: ELEMENTS[t]()[one]} if one else {})
    a = rejected(small)
    if a is None: E.check_that(rejected(small) is None, 'accepted-later'); return
    d = dump(a)
    R.make(t, ELEMENTS[t]())
    b = rejected(small)
    E.check_that(b is not None and same(d, dump(b)), 'left-by-another-element'); E.check_that(same(d, dump(a)), 'changed-by-another-element')
    E.reach('compared')


@entry('Y04', ['compared'])
def nothing_left_in_packets():
    """a packet that leaves options out reads the same before and after packets that give them in full"""
    t, o = E.pick('packet', list(OWNERS)), E.pick('other', list(OWNERS))
    base = {'cif_0': lambda: R.make('!CIF0', {'gain': 'required'})} if t != '!Data' else {}
    if 'Control' in t: base['cam'] = lambda: R.make('!ControlAcknowledgeMode', {'req_x': True, 'action_mode': 'execute'})
    left = lambda: R.make(t, {k: f() for k, f in base.items()})
    a = left(); d = dump(a)
    tags = {v: k for k, v in HOLDERS.items()}
    m = {k: R.make(tags[k], ELEMENTS[tags[k]]()) for k in OWNERS[o]}
    if 'Control' in o: m['controllee_id'], m['controller_id'] = 'uuid', 'word'; m['cam'] = R.make('!ControlAcknowledgeMode', dict({n: True for n in CAM}, action_mode='execute'))
    if o == '!Context': m['tsm'] = 'coarse'
    if o == '!Data': m['spectrum_or_time'] = 'spectrum'
    R.make(o, m)
    E.check_that(same(d, dump(left())), 'left-by-another-packet'); E.check_that(same(d, dump(a)), 'changed-by-another-packet')
    E.reach('compared')
