"""Texts of numerals: known characters and digit strings of any length, and what such a text denotes."""
from .common import *
from pyvc import rx
from pyvc.text import TextV, Chunk, SubCell, DIGITS

POW10 = z3.Function('pow10', INT, REAL)
PI = z3.Real('pi')
EPS = z3.RealVal('1/9007199254740992')


def vint(c):
    """The value of a digit string as an integer."""
    v = getattr(c, 'value', None)
    return v if v is not None else z3.Int('val:' + c.key)


def vfrac(c):
    """The value of 0.<digits>."""
    return z3.Real('frac:' + c.key)


def digits(key, lo=1, hi=None):
    return Chunk(key, DIGITS, lo, hi)


class NumChunk(Chunk):
    """The text of a number: value >= 0."""
    def __init__(self, key, value, alpha, lo=1, hi=None):
        Chunk.__init__(self, key, alpha, lo, hi)
        self.value = value


def facts(chunks):
    out = []
    for c in chunks:
        if isinstance(c, NumChunk) or c.alpha is None or not c.alpha <= DIGITS:
            continue
        v = vint(c)
        out += [v >= 0, vfrac(c) >= 0, vfrac(c) < 1]
        if c.hi is not None and c.hi <= 20:
            out.append(v < 10 ** c.hi)
    return out


def split_facts(cells):
    """Single digits that a digit string was split into."""
    p = cells[0].parent
    if p.alpha is None or not p.alpha <= DIGITS:
        return []
    out = [z3.And(vint(c) >= 0, vint(c) <= 9) for c in cells if c.lo == c.hi == 1]
    if all(c.lo == c.hi == 1 for c in cells):
        n = len(cells)
        out.append(vint(p) == z3.Sum([vint(c) * 10 ** (n - 1 - i) for i, c in enumerate(cells)] or [z3.IntVal(0)]))
        out.append(vfrac(p) == z3.Sum([z3.ToReal(vint(c)) / 10 ** (i + 1) for i, c in enumerate(cells)] or [z3.RealVal(0)]))
    return out


def real(v):
    if isinstance(v, (int, float)):
        return z3.RealVal(str(v))
    return z3.ToReal(v) if v.is_int() else v


class Unreadable(Exception):
    pass


class Reader:
    """Recursive descent over the characters and chunks of a text."""
    def __init__(self, t):
        self.a = []
        for p in ([t] if isinstance(t, str) else t.pieces):
            self.a += list(p) if isinstance(p, str) else [p]
        self.i = 0

    def peek(self, k=0):
        return self.a[self.i + k] if self.i + k < len(self.a) else None

    def sp(self):
        while self.peek() is not None and (self.peek() == ' ' or isinstance(self.peek(), Chunk) and self.peek().alpha is not None and self.peek().alpha <= frozenset(' ')):
            self.i += 1

    def lit(self, s):
        if all(self.peek(k) == c for k, c in enumerate(s)):
            self.i += len(s)
            return True
        return False

    def isdig(self, k=0):
        x = self.peek(k)
        if isinstance(x, Chunk):
            return isinstance(x, NumChunk) or x.alpha is not None and x.alpha <= DIGITS
        return x is not None and x in DIGITS

    def run(self):
        out = []
        while self.isdig():
            out.append(self.peek())
            self.i += 1
        return out

    @staticmethod
    def rint(xs):
        v = None
        for x in xs:
            if isinstance(x, str):
                v = z3.IntVal(int(x)) if v is None else v * 10 + int(x)
            elif v is None:
                v = vint(x)
            elif x.lo == x.hi:
                v = v * 10 ** x.lo + vint(x)
            else:
                raise Unsupported('value of a digit string of two parts')
        return v

    @staticmethod
    def rfrac(xs):
        if any(isinstance(x, NumChunk) for x in xs):
            raise Unsupported('a number after a decimal point')
        v, k = z3.RealVal(0), 0
        for i, x in enumerate(xs):
            if isinstance(x, str):
                v = v + z3.RealVal(int(x)) / 10 ** (k + 1)
                k += 1
            else:
                v = v + vfrac(x) / 10 ** k
                if x.lo != x.hi:
                    if i != len(xs) - 1:
                        raise Unsupported('value of a digit string of two parts')
                else:
                    k += x.lo
        return v

    def numeral(self, sci=True):
        xs = self.run()
        # groups of thousands
        while xs and self.peek() == ',' and self.isdig(1):
            j = self.i
            self.i += 1
            ys = self.run()
            n = sum(1 if isinstance(y, str) else (y.lo if y.lo == y.hi else 100) for y in ys)
            if n != 3:
                self.i = j
                break
            xs += ys
        fr = None
        if self.peek() == '.':
            j = self.i
            self.i += 1
            fr = self.run()
            if not xs and not fr:
                self.i = j
                return None
        if not xs and fr is None:
            return None
        v = real(self.rint(xs)) if xs else z3.RealVal(0)
        if fr:
            v = v + self.rfrac(fr)
        if sci and self.peek() in ('e', 'E'):
            j = self.i
            self.i += 1
            s = 1
            if self.peek() in ('+', '-'):
                s = -1 if self.peek() == '-' else 1
                self.i += 1
            es = self.run()
            if es:
                v = v * power10(s * self.rint(es))
            else:
                self.i = j
        return v

    def expr(self):
        self.sp()
        v = self.term()
        while True:
            self.sp()
            if self.lit('+'):
                v = v + self.term()
            elif self.lit('-'):
                v = v - self.term()
            else:
                return v

    def term(self):
        self.sp()
        if self.lit('-'):
            return -self.term()
        if self.lit('+'):
            return self.term()
        v = self.factor()
        while True:
            self.sp()
            if self.lit('*') or self.lit('\\cdot') or self.lit('\\times'):
                self.sp()
                v = v * (-self.factor() if self.lit('-') else self.factor())
            elif self.lit('/') or self.lit('\\div'):
                v = v / self.factor()
            elif self.peek() in ('(', '{', '\\') and not self.ahead('\\right'):
                v = v * self.factor()
            else:
                return v

    def ahead(self, s):
        return all(self.peek(k) == c for k, c in enumerate(s))

    def factor(self):
        self.sp()
        j = self.i
        n = None
        v = self.primary()
        base10 = self.i - j == 2 and self.a[j:self.i] == ['1', '0']
        self.sp()
        if self.lit('^') or self.lit('**'):
            self.sp()
            if self.peek() == '{' or self.peek() == '(':
                self.i += 1
                close = '}' if self.a[self.i - 1] == '{' else ')'
                s = -1 if self.lit('-') else 1
                self.lit('+')
                x = self.rint(self.run() or self.bad())
                if not self.lit(close):
                    self.bad()
            else:
                # the converter reads all digits after ^
                s = 1
                x = self.rint(self.run() or self.bad())
            if not base10:
                raise Unsupported('power of another base than ten')
            return power10(s * x)
        return v

    def bad(self):
        raise Unreadable()

    def primary(self):
        self.sp()
        for o, c in (('\\left(', '\\right)'), ('(', ')'), ('{', '}')):
            if self.lit(o):
                v = self.expr()
                self.sp()
                if not self.lit(c):
                    self.bad()
                return v
        for f in ('\\frac', '\\dfrac', '\\tfrac', '\\cfrac'):
            if self.lit(f):
                a = self.arg()
                return a / self.arg()
        if self.lit('\\pi') or self.lit('pi'):
            return PI
        v = self.numeral()
        if v is None:
            self.bad()
        return v

    def arg(self):
        self.sp()
        if self.peek() == '{':
            return self.primary()
        x = self.peek()
        if isinstance(x, str) and x.isdigit() or isinstance(x, Chunk) and x.lo == x.hi == 1 and self.isdig():
            self.i += 1
            return real(self.rint([x]))
        self.bad()


def power10(x):
    x = z3.simplify(rv(x))
    if z3.is_int_value(x) and abs(x.as_long()) < 60:
        n = x.as_long()
        return z3.RealVal(10 ** n) if n >= 0 else 1 / z3.RealVal(10 ** -n)
    return POW10(x)


def denote(t):
    """The value a text denotes (a tuple for [a, b, ..]); None when it is no numeral."""
    r = Reader(t)
    if any(isinstance(p, Chunk) and not (isinstance(p, NumChunk) or p.alpha is not None and p.alpha <= DIGITS | frozenset(' ')) for p in r.a):
        raise Unsupported('value of the text %s' % (t if isinstance(t, str) else t.key()))
    try:
        r.sp()
        if r.lit('['):
            out = [r.expr()]
            r.sp()
            while r.lit(','):
                out.append(r.expr())
                r.sp()
            if not r.lit(']'):
                r.bad()
            v = tuple(out)
        else:
            v = r.expr()
        r.sp()
        if r.i != len(r.a):
            return None
        return v
    except Unreadable:
        return None


def py_number(t):
    """The value of a Python float literal, or None."""
    r = Reader(t)
    if any(isinstance(p, Chunk) and not (isinstance(p, NumChunk) or p.alpha is not None and p.alpha <= DIGITS | frozenset(' ')) for p in r.a):
        raise Unsupported('float of the text %s' % t.key())
    r.sp()
    s = 1
    if r.peek() in ('-', '+'):
        s = -1 if r.peek() == '-' else 1
        r.i += 1
    xs = r.i
    if ',' in r.a or '_' in r.a:
        if '_' in r.a:
            raise Unsupported('underscores in a number')
        return None
    try:
        v = r.numeral()
    except Unreadable:
        return None
    r.sp()
    if v is None or r.i != len(r.a):
        return None
    return s * v


class SymNum:
    """What the LaTeX converter returns for a numeral."""
    def __init__(self, v):
        self.v = v

    def sym_u(self, I):
        return z3.Function('symnum', REAL, U)(self.v)

    def sym_truth(self, I):
        return self.v != 0


class NormWorld(CmpWorld):
    det = True

    def __init__(self):
        CmpWorld.__init__(self)
        TextV.STRICT = True
        self.contracts[NO + 'latex2sympy'] = C(self.parse)
        self.contracts[L2 + 'latex2sympy'] = C(self.parse)
        self.assumed.update(['the LaTeX converter gives a numeral its value, and str() of that number denotes it (P13, checked by the companion)',
                             'float(text) is within 2^-53 of the value written (relative); other float arithmetic as on reals',
                             "'{:e}'.format of a decimal denotes it (up to its seven digits)"])

    def allow_recursion(self, qual):
        return len(self.I.frames) < 12

    def parse(self, I, env):
        t = list(env.values())[0]
        if not isinstance(t, (str, TextV)):
            raise Unsupported('parse of %r' % (t,))
        v = denote(t)
        if v is None or isinstance(v, tuple):
            raise Unsupported('parse of %s' % t)
        I.may_raise('parser')
        return SymNum(v)

    def number_text(self, t, v):
        """str of an integer term."""
        I = self.I
        v = z3.simplify(rv(v))
        if z3.is_int_value(v):
            return str(v.as_long())
        k = 'int(%s)' % v
        if I.choose(v < 0):
            return TextV(['-', NumChunk(k + '-', -v, DIGITS)])
        return TextV([NumChunk(k, v, DIGITS)])

    def chunk_split(self, cells):
        for f in split_facts(cells):
            self.I.assume(f)

    def to_str(self, v):
        I = self.I
        if isinstance(v, SymNum):
            if I.choose(v.v < 0):
                return TextV(['-', NumChunk('sym(%s)-' % v.v, -v.v, DIGITS | frozenset('/.e'))])
            return TextV([NumChunk('sym(%s)' % v.v, v.v, DIGITS | frozenset('/.e'))])
        if is_int(v) and is_z3(v):
            return self.number_text(None, v)
        if is_real(v) and is_z3(v):
            if I.choose(v < 0):
                return TextV(['-', NumChunk('flt(%s)-' % v, -v, DIGITS | frozenset('.e+-'))])
            return TextV([NumChunk('flt(%s)' % v, v, DIGITS | frozenset('.e+-'))])
        return None

    def equal_texts(self, a, b):
        try:
            x, y = denote(a), denote(b)
        except Unsupported:
            return None
        if x is None or y is None or isinstance(x, tuple) != isinstance(y, tuple):
            return None
        if isinstance(x, tuple):
            return z3.And(*[p == q for p, q in zip(x, y)]) if len(x) == len(y) else z3.BoolVal(False)
        return x == y

    def builtin(self, name, args, kw):
        I = self.I
        if name == 'float' and len(args) == 1 and isinstance(args[0], TextV):
            v = py_number(args[0])
            if v is None:
                I.raise_(ValueError, 'float()')
            f = z3.Real('float:' + args[0].key())
            m = z3.If(v < 0, -v, v)
            I.assume(z3.And(f - v <= m * EPS, v - f <= m * EPS))
            return f
        if name == 'int' and len(args) == 1 and isinstance(args[0], TextV):
            r = Reader(args[0])
            r.sp()
            s = -1 if r.lit('-') else 1
            xs = r.run()
            r.sp()
            if not xs or r.i != len(r.a):
                if any(isinstance(p, Chunk) and not p.alpha <= DIGITS for p in r.a):
                    raise Unsupported('int of %s' % args[0].key())
                I.raise_(ValueError, 'int()')
            return z3.simplify(s * r.rint(xs))
        return None

    def method(self, o, name, args, kw):
        I = self.I
        if isinstance(o, str) and name == 'format' and len(args) == 1 and not kw and is_z3(args[0]) and is_real(args[0]) and o == '{:e}':
            v = args[0]
            m, x = z3.Real('mantissa(%s)' % v), z3.Int('exponent(%s)' % v)
            I.assume(z3.And(m >= 0, x >= 0))
            a = z3.If(v < 0, -v, v)
            sg = '-' if I.choose(v < 0) else ''
            es = '-' if I.choose(z3.Bool('negative exponent(%s)' % v)) else '+'
            I.assume(m * POW10(-x if es == '-' else x) == a)
            return TextV([sg, NumChunk('m(%s)' % v, m, DIGITS | frozenset('.')), 'e' + es, NumChunk('x(%s)' % v, x, DIGITS)])
        return None

    def ext(self, dotted, args, kw):
        I = self.I
        if dotted == 're.compile':
            if isinstance(args[0], str):
                return rx.PatV(rx.compile_pattern(args[0], rx.flag_value(args[1] if len(args) > 1 else kw.get('flags', 0))))
            return None
        if dotted.startswith('re.'):
            r = rx.call_re(I, dotted[3:], args, kw)
            if r is not None:
                return r
        if dotted in ('fractions.Fraction', 'decimal.Decimal') and len(args) == 1 and not kw:
            t = args[0]
            if isinstance(t, (str, TextV)):
                v = py_number(t)
                if v is None:
                    I.raise_(ValueError)
                return z3.simplify(v)
            if is_num(t):
                return z3.ToReal(rv(t)) if is_int(t) else rv(t)
        return CmpWorld.ext(self, dotted, args, kw)
