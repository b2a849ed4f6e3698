"""Symbolic execution of the repository's Python code.

The modules below `vrtgen.parser` and `vrtgen.backend.cpp.type_helpers` are read from /repo, their syntax trees rewritten so that
subscripts, membership tests and calls go through the functions below, and then executed with symbolic integers, booleans and
texts.  A branch on a symbolic condition that can go both ways forks the path (by re-execution); assertions are decided by Z3."""
import ast, builtins, dataclasses, importlib.abc, importlib.util, os, re as _re, sys, time, types
import z3


class Infeasible(BaseException): pass
class Unsupported(BaseException): pass
class Failed(BaseException):
    def __init__(self, aid, values): self.aid, self.values = aid, values


class Engine:
    def __init__(self):
        self.queries = self.asserts = self.paths = self.steps = 0
        self.ids, self.reached, self.solver_s = {}, set(), 0.0
        self.concrete = None

    # -- one path
    def start(self, prefix):
        self.prefix, self.pos, self.trail = prefix, 0, list(prefix)
        self.s = z3.Solver(); self.s.set('timeout', 60000)
        self.vars = []

    def check(self, *a):
        t = time.time(); r = self.s.check(*a); self.solver_s += time.time() - t; self.queries += 1
        if r == z3.unknown: raise Unsupported('solver gave no answer')
        return r == z3.sat

    def decide(self, e, both=False):
        if self.concrete is not None: raise Unsupported('symbolic in a concrete run')
        e = z3.simplify(e); self.steps += 1
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        if self.pos < len(self.prefix):
            b = self.prefix[self.pos]; self.pos += 1
            self.s.add(e if b else z3.Not(e)); return b
        t = both or self.check(e)
        f = both or self.check(z3.Not(e))
        if not t and not f: raise Infeasible()
        self.pos += 1
        if t and f: self.work.append(self.trail + [False])
        b = t
        self.trail.append(b); self.prefix = self.trail; self.s.add(e if b else z3.Not(e)); return b

    def value(self, model, e):
        v = model.eval(e, model_completion=True)
        return bool(z3.is_true(v)) if z3.is_bool(v) else v.as_long()

    def model_values(self, *a):
        assert self.s.check(*a) == z3.sat
        m = self.s.model()
        return [(n, self.value(m, e) if e is not None else c) for n, e, c in self.vars]

    def explore(self, fn, seconds):
        """runs fn on every path; raises Failed at the first assertion that does not hold"""
        self.work, end, witnesses = [[]], time.time() + seconds, []
        while self.work:
            if time.time() > end: raise Unsupported('time limit')
            self.start(self.work.pop())
            if self.paths < 30: sys.setprofile(getattr(self, "prof", None))
            try:
                fn()
            except Infeasible:
                continue
            finally: sys.setprofile(None)
            self.paths += 1
            if len(witnesses) < 5 or self.paths % 97 == 0 and len(witnesses) < 25: witnesses.append(self.model_values())
        return witnesses

    # -- what the properties use
    def fresh(self, name, e): self.vars.append((name, e, None)); return e

    def _replayed(self, name):
        v = self.concrete.pop(0); assert v[0] == name, (v, name); return v[1]

    def int(self, name, lo, hi):
        if self.concrete is not None: return self._replayed(name)
        e = self.fresh(name, z3.Int('%s#%d' % (name, len(self.vars)))); self.s.add(e >= lo, e <= hi); return SymInt(e)

    def bool(self, name):
        if self.concrete is not None: return self._replayed(name)
        return SymBool(self.fresh(name, z3.Bool('%s#%d' % (name, len(self.vars)))))

    def pick(self, name, options):
        """one path per option"""
        if self.concrete is not None: return options[self._replayed(name)]
        e = self.fresh(name, z3.Int('%s#%d' % (name, len(self.vars)))); self.s.add(e >= 0, e < len(options))
        for i in range(len(options) - 1):
            if self.decide(e == i, True): return options[i]     # a fresh number: every option is possible
        self.s.add(e == len(options) - 1)
        return options[-1]

    def text(self, name, lo, hi):
        n = self.pick(name + '-length', list(range(lo, hi + 1)))
        if self.concrete is not None: return ''.join(chr(self._replayed(name)) for _ in range(n))
        cs = []
        for i in range(n):
            e = self.fresh(name, z3.Int('%s#%d' % (name, len(self.vars)))); self.s.add(e >= 32, e <= 126); cs.append(e)
        return SymStr.make(cs)

    def assume(self, c):
        if self.concrete is not None: return
        c = z3.simplify(expr(c)); self.s.add(c)
        if not self.check(): raise Infeasible()

    def check_that(self, c, aid):
        """the assertion"""
        self.asserts += 1
        if self.concrete is not None:
            if not c: raise Failed(aid, None)
            return
        n = self.ids.setdefault(aid, [0, 0, 0])
        e = z3.simplify(expr(c))
        if z3.is_true(e): n[0] += 1; return
        n[1] += 1
        if self.check(z3.Not(e)): raise Failed(aid, self.model_values(z3.Not(e)))
        self.s.add(e)

    def reach(self, w): self.reached.add(w)


E = Engine()


def expr(c):
    if isinstance(c, SymBool): return c.e
    if isinstance(c, SymInt): return c.e != 0
    return z3.BoolVal(bool(c))


def sym(*a): return any(isinstance(x, (SymInt, SymBool, SymStr)) for x in a)
def ie(x):
    if isinstance(x, SymInt): return x.e
    if isinstance(x, SymBool): return z3.If(x.e, 1, 0)
    if isinstance(x, builtins.int): return z3.IntVal(int.__int__(x))
    return None


class SymBool:
    __slots__ = ('e',)
    def __init__(self, e): self.e = e
    def __bool__(self): return E.decide(self.e)
    def __deepcopy__(self, m): return self
    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)): return SymBool(self.e == expr(o))
        return NotImplemented
    def __ne__(self, o): return not_(self == o)
    __hash__ = None
    def __and__(self, o): return SymBool(z3.And(self.e, expr(o)))
    def __or__(self, o): return SymBool(z3.Or(self.e, expr(o)))
    __rand__, __ror__ = __and__, __or__
    def __invert__(self): return SymBool(z3.Not(self.e))


def not_(c): return SymBool(z3.Not(expr(c))) if sym(c) else not c
def and_(*c): return SymBool(z3.And(*[expr(x) for x in c])) if any(sym(x) for x in c) else all(c)
def or_(*c): return SymBool(z3.Or(*[expr(x) for x in c])) if any(sym(x) for x in c) else any(c)
def eq(a, b):
    if isinstance(a, SymStr) or isinstance(b, SymStr): return SymStr.same(a, b)
    if sym(a, b):
        if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)): return SymBool(expr(a) == expr(b))
        if ie(a) is None or ie(b) is None: return False
        return SymBool(ie(a) == ie(b))
    return a == b
def implies(a, b): return or_(not_(a), b)


def _op(f):
    def g(self, o):
        o = ie(o)
        return NotImplemented if o is None else f(self.e, o)
    return g


class SymInt(int):
    def __new__(cls, e):
        o = int.__new__(cls, 0); o.e = e; return o
    __add__ = _op(lambda a, b: SymInt(a + b)); __radd__ = _op(lambda a, b: SymInt(b + a))
    __sub__ = _op(lambda a, b: SymInt(a - b)); __rsub__ = _op(lambda a, b: SymInt(b - a))
    def __mul__(self, o):
        if isinstance(o, (str, list, tuple, bytes)): return self.concrete() * o
        return NotImplemented if ie(o) is None else SymInt(self.e * ie(o))
    __rmul__ = __mul__
    def __floordiv__(self, o):
        if isinstance(o, SymInt) or o <= 0: raise Unsupported('division by ' + repr(o))
        return SymInt(self.e / z3.IntVal(o))
    def __mod__(self, o):
        if isinstance(o, SymInt) or o <= 0: raise Unsupported('modulo')
        return SymInt(self.e % z3.IntVal(o))
    def __neg__(self): return SymInt(-self.e)
    def __pos__(self): return self
    __lt__ = _op(lambda a, b: SymBool(a < b)); __le__ = _op(lambda a, b: SymBool(a <= b))
    __gt__ = _op(lambda a, b: SymBool(a > b)); __ge__ = _op(lambda a, b: SymBool(a >= b))
    __eq__ = _op(lambda a, b: SymBool(a == b)); __ne__ = _op(lambda a, b: SymBool(a != b))
    def __bool__(self): return E.decide(self.e != 0)
    def concrete(self):
        """one path per value"""
        while True:
            v = z3.simplify(self.e)
            if z3.is_int_value(v): return v.as_long()
            # the value tried must be the same when the path is executed again: the smallest possible one
            o = z3.Optimize(); o.add(*E.s.assertions()); o.minimize(self.e); E.queries += 1
            if o.check() != z3.sat: raise Infeasible()
            lo = o.model().eval(self.e, model_completion=True).as_long()
            if E.decide(self.e == lo): return lo
    def __index__(self): return self.concrete()
    def __int__(self): return self
    def __float__(self): return float(self.concrete())
    def __truediv__(self, o): return self.concrete() / (o.concrete() if isinstance(o, SymInt) else o)
    def __rtruediv__(self, o): return o / self.concrete()
    def __lshift__(self, o): return self * (1 << (o.concrete() if isinstance(o, SymInt) else o))
    def __rshift__(self, o): return self // (1 << (o.concrete() if isinstance(o, SymInt) else o))
    def __invert__(self): return SymInt(-self.e - 1)
    def __and__(self, o):
        """with a constant: one term per run of set bits"""
        if isinstance(o, SymBool): o = SymInt(ie(o))
        if isinstance(o, SymInt): return self.concrete() & o.concrete()
        if not isinstance(o, builtins.int): return NotImplemented
        o = int.__int__(o)
        if o < 0: return self - (self & ~o)
        r, at = z3.IntVal(0), 0
        while o >> at:
            if not (o >> at) & 1: at += 1; continue
            n = 1
            while (o >> (at + n)) & 1: n += 1
            r = r + self.e / z3.IntVal(1 << at) % z3.IntVal(1 << n) * (1 << at); at += n
        return SymInt(r)
    __rand__ = __and__
    def _disjoint(self, o):
        """no bit is set in both: one is a multiple of a power of two that the other stays below"""
        for k in (8, 16, 24, 32, 4, 1, 2, 3, 5, 6, 7, 12, 20, 28, 40, 48, 56):
            for a, b in ((self.e, o.e), (o.e, self.e)):
                if not E.check(z3.Not(z3.And(a % z3.IntVal(1 << k) == 0, b >= 0, b < 1 << k))): return True
        return False
    def __or__(self, o):
        if isinstance(o, SymBool): o = SymInt(ie(o))
        if isinstance(o, SymInt): return self + o if self._disjoint(o) else self.concrete() | o.concrete()
        return self + o - (self & o) if isinstance(o, builtins.int) else NotImplemented
    __ror__ = __or__
    def __xor__(self, o):
        if isinstance(o, SymBool): o = SymInt(ie(o))
        if isinstance(o, SymInt): return self + o if self._disjoint(o) else self.concrete() ^ o.concrete()
        return self + o - 2 * (self & o) if isinstance(o, builtins.int) else NotImplemented
    __rxor__ = __xor__
    def __rlshift__(self, o): return o << self.concrete()
    def __pow__(self, o): return self.concrete() ** (o.concrete() if isinstance(o, SymInt) else o)
    def __rpow__(self, o): return o ** self.concrete()
    def __hash__(self): return hash(self.concrete())
    def __str__(self): return str(self.concrete())
    __repr__ = __str__
    def __format__(self, f): return format(self.concrete(), f)
    def __deepcopy__(self, m): return self
    def __copy__(self): return self


# what is not written above works on one value at a time
def _one_at_a_time(n):
    def f(self, *a): return getattr(int, n)(self.concrete(), *[x.concrete() if isinstance(x, SymInt) else x for x in a])
    return f
for _n in dir(int):
    if _n not in SymInt.__dict__ and _n not in ('__new__', '__class__', '__getattribute__', '__init__', '__init_subclass__', '__subclasshook__', '__dir__', '__doc__', '__sizeof__', '__reduce__',
                                                '__reduce_ex__', '__setattr__', '__delattr__', '__getnewargs__', '__getstate__', 'from_bytes', 'real', 'imag', 'numerator', 'denominator'):
        setattr(SymInt, _n, _one_at_a_time(_n))
SymInt.real = SymInt.numerator = property(lambda s: s)


class SymStr(str):
    @staticmethod
    def make(cs):
        if all(isinstance(c, int) for c in cs): return ''.join(map(chr, cs))
        o = str.__new__(SymStr, '\0' * len(cs)); o.c = tuple(cs); return o
    @staticmethod
    def codes(x): return x.c if isinstance(x, SymStr) else tuple(map(ord, x))
    @staticmethod
    def same(a, b):
        if not isinstance(a, str) or not isinstance(b, str): return False
        a, b = SymStr.codes(a), SymStr.codes(b)
        if len(a) != len(b): return False
        return SymBool(z3.And(*[z3.BoolVal(x == y) if isinstance(x, int) and isinstance(y, int) else x == y for x, y in zip(a, b)]))
    def __eq__(self, o): return SymStr.same(self, o)
    def __ne__(self, o): return not_(SymStr.same(self, o))
    def __hash__(self): raise Unsupported('hash of a symbolic text')
    def lower(self): return SymStr.make([c if isinstance(c, int) and not 65 <= c <= 90 else c + 32 if isinstance(c, int) else z3.If(z3.And(c >= 65, c <= 90), c + 32, c) for c in self.c])
    def upper(self): return SymStr.make([c if isinstance(c, int) and not 97 <= c <= 122 else c - 32 if isinstance(c, int) else z3.If(z3.And(c >= 97, c <= 122), c - 32, c) for c in self.c])
    casefold = lower
    def startswith(self, p): return SymStr.same(self[:len(p)], p) if len(self.c) >= len(p) else False
    def endswith(self, p): return SymStr.same(self[len(self.c) - len(p):], p) if len(self.c) >= len(p) else False
    def __getitem__(self, i):
        if isinstance(i, slice): return SymStr.make(self.c[i])
        return SymStr.make([self.c[i]])
    def __iter__(self): return iter([SymStr.make([c]) for c in self.c])
    def __len__(self): return len(self.c)
    def __add__(self, o): return SymStr.make(self.c + SymStr.codes(o))
    def __radd__(self, o): return SymStr.make(SymStr.codes(o) + self.c)
    def __contains__(self, o): return bool(or_(*[SymStr.same(self[i:i + len(o)], o) for i in range(len(self.c) - len(o) + 1)])) if len(o) <= len(self.c) else False
    def strip(self, *a):
        if a: return self.lstrip(*a).rstrip(*a)
        s = self
        while len(s) and SymStr.same(s[0], ' '):
            s = s[1:]
            if not isinstance(s, SymStr): return s.strip()
        while len(s) and SymStr.same(s[-1], ' '):
            s = s[:-1]
            if not isinstance(s, SymStr): return s.strip()
        return s
    def _all(self, f): return len(self.c) > 0 and SymBool(z3.And(*[f(z3.IntVal(c) if isinstance(c, int) else c) for c in self.c]))
    def isdigit(self): return self._all(lambda c: z3.And(c >= 48, c <= 57))
    isdecimal = isnumeric = isdigit
    def isalpha(self): return self._all(lambda c: z3.Or(z3.And(c >= 65, c <= 90), z3.And(c >= 97, c <= 122)))
    def isalnum(self): return self._all(lambda c: z3.Or(z3.And(c >= 48, c <= 57), z3.And(c >= 65, c <= 90), z3.And(c >= 97, c <= 122)))
    def find(self, o, start=0):
        for i in range(start, len(self.c) - len(o) + 1):
            if SymStr.same(self[i:i + len(o)], o): return i
        return -1
    def count(self, o): return len(self.split(o)) - 1
    def split(self, sep=None, n=-1):
        if sep is None: sep = ' '
        r, rest = [], self
        while n != 0:
            i = rest.find(sep)
            if i < 0: break
            r.append(rest[:i]); rest = rest[i + len(sep):]; n -= 1
        return r + [rest]
    def replace(self, a, b, n=-1):
        p = SymStr.split(self, a, n); r = SymStr.codes(p[0])
        for x in p[1:]: r += SymStr.codes(b) + SymStr.codes(x)
        return SymStr.make(r)
    def _some(self, f): return or_(*[SymBool(f(z3.IntVal(c) if isinstance(c, int) else c)) for c in self.c])
    def isupper(self): return and_(not_(self._some(lambda c: z3.And(c >= 97, c <= 122))), self._some(lambda c: z3.And(c >= 65, c <= 90)))
    def islower(self): return and_(not_(self._some(lambda c: z3.And(c >= 65, c <= 90))), self._some(lambda c: z3.And(c >= 97, c <= 122)))
    def isspace(self): return self._all(lambda c: z3.Or(c == 32, z3.And(c >= 9, c <= 13)))
    def isascii(self): return True
    def isprintable(self): return True
    def swapcase(self): return SymStr.make([c if isinstance(c, int) and not chr(c).isalpha() else ord(chr(c).swapcase()) if isinstance(c, int) else z3.If(z3.And(c >= 65, c <= 90), c + 32, z3.If(z3.And(c >= 97, c <= 122), c - 32, c)) for c in self.c])
    def capitalize(self): return SymStr.make(SymStr.codes(self[:1].upper()) + SymStr.codes(self[1:].lower()))
    def index(self, o, start=0):
        i = self.find(o, start)
        if i < 0: raise ValueError('substring not found')
        return i
    def rfind(self, o):
        for i in range(len(self.c) - len(o), -1, -1):
            if SymStr.same(self[i:i + len(o)], o): return i
        return -1
    def partition(self, o):
        i = self.find(o)
        return (self, '', '') if i < 0 else (self[:i], o, self[i + len(o):])
    def rpartition(self, o):
        i = self.rfind(o)
        return ('', '', self) if i < 0 else (self[:i], o, self[i + len(o):])
    def lstrip(self, a=' '):
        i = 0
        while i < len(self.c) and or_(*[eq(self[i], x) for x in a]): i += 1
        return self[i:]
    def rstrip(self, a=' '):
        i = len(self.c)
        while i > 0 and or_(*[eq(self[i - 1], x) for x in a]): i -= 1
        return self[:i]
    def removeprefix(self, p): return self[len(p):] if self.startswith(p) else self
    def removesuffix(self, p): return self[:len(self) - len(p)] if len(p) and self.endswith(p) else self
    def __str__(self): return self
    def __repr__(self): return '<symbolic text>'
    def __format__(self, f): return '<symbolic text>'
    def __deepcopy__(self, m): return self
    def __reduce_ex__(self, p): raise Unsupported('copy of a symbolic text')
def _unsupported(n):
    def f(*a, **k): raise Unsupported('str.' + n + ' of a symbolic text')
    return f
for _n in dir(str):
    if not _n.startswith('__') and _n not in SymStr.__dict__: setattr(SymStr, _n, _unsupported(_n))


# ---- numerals
def digits(s, base, inner=False):
    """the value of a symbolic numeral, as int() reads it; raises ValueError"""
    if len(s) == 0: raise ValueError('invalid literal')
    c = SymStr.codes(s)
    if base == 16 and not inner and len(c) > 1 and and_(eq(s[0], '0'), or_(eq(s[1], 'x'), eq(s[1], 'X'))): return digits(s[2:], 16, True)
    v, ok = z3.IntVal(0), []
    for x in c:
        x = z3.IntVal(x) if isinstance(x, int) else x
        d = z3.And(x >= 48, x <= 57)
        if base == 16:
            up, lo = z3.And(x >= 65, x <= 70), z3.And(x >= 97, x <= 102)
            ok.append(z3.Or(d, up, lo)); v = v * 16 + z3.If(d, x - 48, z3.If(up, x - 55, x - 87))
        else: ok.append(d); v = v * 10 + x - 48
    if not SymBool(z3.And(*ok)):
        # what else int() accepts: signs, blanks and underscores are not explored
        odd = [z3.Or(x == 43, x == 45, x == 32, x == 95) for x in c if not isinstance(x, int)]
        if odd and SymBool(z3.Or(*odd)): raise Infeasible()
        raise ValueError('invalid literal')
    return SymInt(v)


# ---- regular expressions: backtracking over the parsed pattern, forking on characters
class Pattern:
    def __init__(self, p, flags=0): self.p, self.flags, self.real = p, flags, _re.compile(p, flags)
    def __getattr__(self, n): return getattr(self.real, n)
    def match(self, s, full=False):
        if not isinstance(s, SymStr): return (self.real.fullmatch if full else self.real.match)(s)
        import re._parser as sp
        tree, n = sp.parse(self.p, self.flags), len(s)
        icase = self.flags & _re.I
        def one(c, op, av):
            op = str(op)
            alts = [c]
            if icase and not isinstance(c, int): alts = [c, z3.If(z3.And(c >= 65, c <= 90), c + 32, c), z3.If(z3.And(c >= 97, c <= 122), c - 32, c)]
            def base(c):
                if op == 'LITERAL': return c == av
                if op == 'NOT_LITERAL': return z3.Not(c == av) if not isinstance(c, int) else c != av
                if op == 'ANY': return c != 10
                if op == 'IN':
                    neg, r = False, []
                    for o, a in av:
                        o = str(o)
                        if o == 'NEGATE': neg = True
                        elif o == 'LITERAL': r.append(c == a)
                        elif o == 'RANGE': r.append(z3.And(c >= a[0], c <= a[1]))
                        elif o == 'CATEGORY' and str(a) == 'CATEGORY_DIGIT': r.append(z3.And(c >= 48, c <= 57))
                        elif o == 'CATEGORY' and str(a) == 'CATEGORY_WORD': r.append(z3.Or(z3.And(c >= 48, c <= 57), z3.And(c >= 65, c <= 90), z3.And(c >= 97, c <= 122), c == 95))
                        else: raise Unsupported('pattern ' + o)
                    r = z3.Or(*r)
                    return z3.Not(r) if neg else r
                raise Unsupported('pattern ' + op)
            c_ = [z3.IntVal(x) if isinstance(x, int) else x for x in alts]
            return SymBool(z3.Or(*[base(x) for x in c_]))
        groups = {}
        def go(items, i, k):
            if not items: return k(i)
            (op, av), rest = items[0], items[1:]
            o = str(op)
            if o == 'AT':
                a = str(av)
                if 'BEGINNING' in a: return i == 0 and go(rest, i, k)
                return i == n and go(rest, i, k)
            if o == 'SUBPATTERN':
                g, sub = av[0], list(av[3])
                def done(j):
                    old = groups.get(g); groups[g] = (i, j)
                    r = go(rest, j, k)
                    if not r: groups[g] = old
                    return r
                return go(sub, i, done)
            if o == 'MAX_REPEAT':
                lo, hi, sub = av
                def rep(c, j):
                    if c < hi and j <= n:
                        r = go(list(sub), j, lambda q: q > j and rep(c + 1, q))
                        if r: return r
                    return c >= lo and go(rest, j, k)
                return rep(0, i)
            if o == 'BRANCH':
                return any(go(list(b) + rest, i, k) for b in av[1])
            if i >= n: return False
            return bool(one(s.c[i], op, av)) and go(rest, i + 1, k)
        end = []
        def fin(j):
            if full and j != n: return False
            end.append(j); return True
        if not go(list(tree), 0, fin): return None
        return Match(s, groups, end[0], tree.state.groups - 1, tree.state.groupdict)
    def fullmatch(self, s): return self.match(s, True)
    def search(self, s):
        if not isinstance(s, SymStr): return self.real.search(s)
        for i in range(len(s) + 1):
            m = self.match(s[i:] if i else s)
            if m: return m
            if self.p.startswith('^'): return None


class Match:
    def __init__(self, s, g, e, n, names): self.s, self.g, self.e, self.n, self.names = s, g, e, n, names
    def span(self, i=0):
        if i == 0: return (0, self.e)
        if isinstance(i, str):
            if i not in self.names: raise IndexError('no such group')
            i = self.names[i]
        if i > self.n: raise IndexError('no such group')
        return self.g.get(i) or (-1, -1)
    def start(self, i=0): return self.span(i)[0]
    def end(self, i=0): return self.span(i)[1]
    def one(self, i):
        a, b = self.span(i)
        return None if a < 0 else self.s[a:b]
    def group(self, *i): return self.one(0) if not i else self.one(i[0]) if len(i) == 1 else tuple(self.one(x) for x in i)
    __getitem__ = one
    def groups(self, default=None): return tuple(default if self.one(i + 1) is None else self.one(i + 1) for i in range(self.n))
    def groupdict(self, default=None): return {k: default if self.one(v) is None else self.one(v) for k, v in self.names.items()}


class Re:
    def __getattr__(self, n): return getattr(_re, n)
    def compile(self, p, flags=0): return Pattern(p, flags)
    def match(self, p, s, flags=0): return Pattern(p, flags).match(s)
    def fullmatch(self, p, s, flags=0): return Pattern(p, flags).match(s, True)
    def search(self, p, s, flags=0): return Pattern(p, flags).search(s)


# ---- what the rewritten code calls
def vs_get(o, k):
    if isinstance(k, SymStr) and isinstance(o, dict):
        for x in o:
            if eq(k, x): return dict.__getitem__(o, x)
        raise KeyError('<symbolic text>')
    if isinstance(k, SymStr) and isinstance(o, type) and hasattr(o, '__members__'): return vs_get(dict(o.__members__), k)
    if isinstance(k, SymInt) and isinstance(o, dict):
        for x in o:
            if isinstance(x, int) and eq(k, x): return o[x]
        raise KeyError('<symbolic number>')
    if isinstance(k, SymBool): k = bool(k)
    if isinstance(k, slice): k = slice(*[x.concrete() if isinstance(x, SymInt) else x for x in (k.start, k.stop, k.step)])
    return o[k.concrete() if isinstance(k, SymInt) else k]


def vs_mod(a, b):
    if isinstance(a, str):
        if isinstance(b, tuple): b = tuple(x.concrete() if isinstance(x, SymInt) else x for x in b)
        elif isinstance(b, SymInt): b = b.concrete()
    return a % b


def vs_in(k, o):
    if not isinstance(o, (str, dict, list, tuple, set, frozenset)) and sym(k) and hasattr(o, '__iter__'): o = list(o)
    if sym(k) and isinstance(o, (dict, list, tuple, set, frozenset)): return or_(*[eq(k, x) for x in o]) if len(o) else False
    if isinstance(k, SymStr) and isinstance(o, str): return SymStr.make(SymStr.codes(o)).__contains__(k) if isinstance(o, SymStr) else or_(*[eq(k, x) for x in dict.fromkeys(o[i:i + len(k)] for i in range(len(o) - len(k) + 1))]) if len(k) <= len(o) else False
    return k in o


def vs_not(x): return not_(x) if isinstance(x, SymBool) else not x


def vs_call(f, *a, **k):
    s = getattr(f, '__self__', None)
    if isinstance(s, str) and not isinstance(s, SymStr) and sym(*a) or type(s) is str and a and isinstance(a[0], (list, tuple)) and sym(*a[0]):
        n = f.__name__
        if n == 'join':
            r = ()
            for i, x in enumerate(a[0]): r += (SymStr.codes(s) if i else ()) + SymStr.codes(x)
            return SymStr.make(r)
        if n == 'format': return f(*a, **k)
        if n in ('startswith', 'endswith'): return getattr(SymStr.make(list(map(ord, s))) if s else s, n)(*a)
        raise Unsupported('str.' + n)
    if isinstance(s, dict) and f.__name__ == 'get' and a and sym(a[0]):
        try: return vs_get(s, a[0])
        except KeyError: return a[1] if len(a) > 1 else None
    if f is int and a and sym(a[0]):
        if isinstance(a[0], SymStr): return digits(a[0], a[1] if len(a) > 1 else k.get('base', 10))
        return a[0] if isinstance(a[0], SymInt) else SymInt(z3.If(a[0].e, 1, 0))
    if f is bool and a and sym(a[0]): return SymBool(expr(a[0]))
    if f is str and a and isinstance(a[0], SymStr): return a[0]
    if f is isinstance and isinstance(a[0], SymBool): return bool in (a[1] if isinstance(a[1], tuple) else (a[1],)) or int in (a[1] if isinstance(a[1], tuple) else (a[1],))
    if f is type and len(a) == 1 and sym(a[0]): return {SymInt: int, SymBool: bool, SymStr: str}[type(a[0])]
    if f is any or f is all:
        x = list(a[0])
        return (or_ if f is any else and_)(*x) if x else f(x)
    if f in (min, max) and sym(*a): 
        r = a[0]
        for x in a[1:]: r = SymInt(z3.If((ie(x) < ie(r)) if f is min else (ie(x) > ie(r)), ie(x), ie(r)))
        return r
    if f is abs and sym(*a): return SymInt(z3.If(a[0].e < 0, -a[0].e, a[0].e))
    if f is print: return None
    if f is str and a and isinstance(a[0], SymBool): return str(bool(a[0]))
    if f is divmod: return (a[0] // a[1], a[0] % a[1])
    if f is hash: return f(*a)
    if f is sum:
        r = a[1] if len(a) > 1 else 0
        for x in a[0]: r = r + x
        return r
    if sym(*a) and not isinstance(f, (types.FunctionType, types.MethodType)) and f not in (len, isinstance, issubclass, str, repr, list, tuple, dict, iter, getattr, setattr, hasattr, id, callable, enumerate, zip, map, filter, sorted, reversed):
        # functions written in C look into the number itself
        if isinstance(f, type) and f in (range, float, complex, slice) or isinstance(f, types.BuiltinFunctionType) and (s is None or isinstance(s, types.ModuleType)) and f is not builtins.pow:
            a = [x.concrete() if isinstance(x, SymInt) else bool(x) if isinstance(x, SymBool) else x for x in a]
        elif isinstance(f, type) and hasattr(f, '__members__') and isinstance(a[0], SymInt): a = [a[0].concrete(), *a[1:]]
    return f(*a, **k)


def vs_keys(f, o):
    """the items of asdict(o) where only their keys are used"""
    if f is not dataclasses.asdict: return f(o).items()
    return [(x.name, None) for x in dataclasses.fields(o)]


class Rewrite(ast.NodeTransformer):
    def _comp(self, n):
        g = n.generators[0]
        c = g.iter
        if len(n.generators) == 1 and isinstance(g.target, ast.Tuple) and len(g.target.elts) == 2 and isinstance(g.target.elts[1], ast.Name) and isinstance(c, ast.Call) and not c.args and isinstance(c.func, ast.Attribute) \
           and c.func.attr == 'items' and isinstance(c.func.value, ast.Call) and isinstance(c.func.value.func, ast.Name) and len(c.func.value.args) == 1 and not c.func.value.keywords:
            used = [x for p in [getattr(n, 'elt', None), getattr(n, 'key', None), getattr(n, 'value', None), *g.ifs] if p is not None for x in ast.walk(p) if isinstance(x, ast.Name) and x.id == g.target.elts[1].id]
            if not used and c.func.value.func.id == 'asdict': g.iter = ast.copy_location(self._n('__vs_keys__', c.func.value.func, c.func.value.args[0]), c)
        return self.generic_visit(n)
    visit_ListComp = visit_GeneratorExp = visit_SetComp = _comp
    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id in ('__vs_keys__', '__vs_get__', '__vs_in__', '__vs_mod__'): return n
        return self._call(n)
    def _n(self, name, *args, **kw): return ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=list(args), keywords=kw.get('keywords', []))
    def visit_AnnAssign(self, n):
        if n.value: n.value = self.visit(n.value)
        return n
    def visit_FunctionDef(self, n):
        n.body = [self.visit(x) for x in n.body]; return n
    def visit_Subscript(self, n):
        self.generic_visit(n)
        if not isinstance(n.ctx, ast.Load) or isinstance(n.slice, ast.Tuple): return n
        k = n.slice
        if isinstance(k, ast.Slice): k = self._n('slice', *[x or ast.Constant(value=None) for x in (k.lower, k.upper, k.step)])
        return ast.copy_location(self._n('__vs_get__', n.value, k), n)
    def visit_BinOp(self, n):
        self.generic_visit(n)
        return ast.copy_location(self._n('__vs_mod__', n.left, n.right), n) if isinstance(n.op, ast.Mod) else n
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            r = self._n('__vs_in__', n.left, n.comparators[0])
            return ast.copy_location(self._n('__vs_not__', r) if isinstance(n.ops[0], ast.NotIn) else r, n)
        return n
    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        return ast.copy_location(self._n('__vs_not__', n.operand), n) if isinstance(n.op, ast.Not) else n
    def _call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ('super', 'locals', 'globals'): return n
        return ast.copy_location(self._n('__vs_call__', n.func, *n.args, keywords=n.keywords), n)


class Loader(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, root): self.root, self.files = root, []
    def find_spec(self, name, path, target=None):
        if not (name.startswith('vrtgen.parser') or name == 'vrtgen.backend.cpp.type_helpers'): return None
        b = self.root + '/' + name.replace('.', '/')
        f = b + '/__init__.py' if os.path.isdir(b) else b + '.py'
        return importlib.util.spec_from_file_location(name, f, loader=self, submodule_search_locations=[b] if os.path.isdir(b) else None) if os.path.exists(f) else None
    def create_module(self, spec): return None
    def exec_module(self, m):
        f = m.__spec__.origin
        t = ast.fix_missing_locations(Rewrite().visit(ast.parse(open(f).read(), f)))
        self.files.append(f)
        m.__dict__.update(__vs_keys__=vs_keys, __vs_mod__=vs_mod, __vs_get__=vs_get, __vs_in__=vs_in, __vs_not__=vs_not, __vs_call__=vs_call)
        exec(compile(t, f, 'exec'), m.__dict__)
        for k, v in list(m.__dict__.items()):
            if v is _re: m.__dict__[k] = RE
            if k in ('match', 'fullmatch', 'search', 'compile') and v is getattr(_re, k): m.__dict__[k] = getattr(RE, k)
            if isinstance(v, _re.Pattern): m.__dict__[k] = Pattern(v.pattern, v.flags & _re.I)


RE = Re()


def install(repo):
    sys.dont_write_bytecode = True
    sys.path.insert(0, repo + '/src')
    sys.path.append('/opt/vrtgen-venv/lib/python3.12/site-packages')
    l = Loader(repo + '/src'); sys.meta_path.insert(0, l); return l
