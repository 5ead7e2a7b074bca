"""P17, P18: string_normalize on numerals of any length."""
from .texts import *

A, B, C_ = digits('A'), digits('B'), digits('C')
E_, F_ = digits('E'), digits('F')
G1, G2, G3, G4 = [digits('G%d' % i, 3, 3) for i in range(1, 5)]
# the first group of a number with separators: one to three digits, the first of them not 0
N1 = Chunk('N1', DIGITS - {'0'}, 1, 1)
HEADS = [[N1], [N1, digits('H1', 1, 1)], [N1, digits('H2', 2, 2)]]


def ra(c):
    return real(vint(c))


def absr(x):
    return z3.If(x < 0, -x, x)


def near(x, v):
    """The value written, up to the precision of a double."""
    return absr(x - v) <= absr(v) * z3.RealVal('1/1000000000000000')


def exact(x, v):
    return x == v


def decimal(x, v):
    """A value within 1e-7 of an integer may be read as that integer."""
    return z3.Or(x == v, z3.And(z3.IsInt(x), absr(x - v) <= z3.RealVal('1/10000000') + absr(v) * 2 * EPS))


def setup(u, modular=False):
    w = NormWorld()
    u.timeout_ms = 6000
    I = u.interp(w)
    if modular:
        body = u.func_value(I, NO + 'further_string_normalize') if has(I, 'further_string_normalize') else None

        def further(I, env):
            """Keeps the value of a numeral (unit_further); of anything else the body decides."""
            t = list(env.values())[0]
            if isinstance(t, (str, TextV)):
                v = denote(t)
                if v is not None:
                    return t
            return I.call_func(body, [t], {}, use_contract=False)
        if body is not None:
            w.contracts[NO + 'further_string_normalize'] = C(further)
    return w, I


def has(I, fn):
    m = I.src.get(NO[:-1])
    if m is None:
        return False
    I.load_module(m)
    return fn in m.vars


def rule(u, I, name, pieces, want, rel=exact, hyps=(), fn='string_normalize'):
    u.attempt(name, lambda: rule_(u, I, name, pieces, want, rel, hyps, fn))


def rule_(u, I, name, pieces, want, rel, hyps, fn):
    """string_normalize of the template denotes `want`: a value, a tuple (a list of values) or a list (exactly these readings)."""
    t = TextV(list(pieces))
    fs = facts(t.chunks()) + list(hyps)

    def prepare():
        for f in fs:
            I.assume(f)
    u.cover(name, fs)
    res = u.explore(I, NO + fn, [t], prepare=prepare)
    for i, r in enumerate(res):
        tag = '%s, %s' % (name, path_tag(i))
        if r.kind == 'raise':
            u.prove(tag + ': no exception', r.pc, False, imprecise=bool(r.taint))
            continue
        I.heap = dict(r.snap[1])
        v = r.value
        k = I.kind_of(v)
        if isinstance(want, list):
            if k != 'set':
                u.prove(tag + ': the readings are a set', r.pc, False, imprecise=bool(r.taint), info='%r' % (v,))
                continue
            items = v.items if isinstance(v, SetV) else None
            ds = [denote(x) for x in items]
            fs1 = [bor(*[agrees(x, w, rel) for x in ds]) for w in want]
            fs2 = [bor(*[agrees(x, w, rel) for w in want]) for x in ds]
            u.prove(tag + ': every reading is there', r.pc, band(*fs1), imprecise=bool(r.taint), info='%r' % (items,))
            u.prove(tag + ': no other reading', r.pc, band(*fs2), imprecise=bool(r.taint), info='%r' % (items,))
            continue
        if k != 'str':
            u.prove(tag + ': a text', r.pc, False, imprecise=bool(r.taint), info='%r' % (v,))
            continue
        u.prove(tag + ': the value is kept', r.pc, agrees(denote(v), want, rel), imprecise=bool(r.taint), info='%r' % (v,))


def agrees(x, w, rel):
    if x is None:
        return False
    if isinstance(x, tuple) or isinstance(w, tuple):
        if not (isinstance(x, tuple) and isinstance(w, tuple) and len(x) == len(w)):
            return False
        return band(*[rel(p, q) for p, q in zip(x, w)])
    return rel(x, w)


def unit_integers(u, part):
    w, I = setup(u)
    rule(u, I, 'n', [A], ra(A))
    rule(u, I, '-n', ['-', A], -ra(A))
    rule(u, I, '- n', ['- ', A], -ra(A))
    rule(u, I, 'spaces around', ['  ', A, ' '], ra(A))
    rule(u, I, '{n}', ['{', A, '}'], ra(A))


def unit_separators(u, part):
    w, I = setup(u)
    val = lambda *gs: real(Reader.rint(gs))
    for i, H in enumerate(HEADS):
        th = lambda *gs: H + [x for g in gs for x in (',', g)]
        nm = '1' + '0' * i
        rule(u, I, nm + ',234', th(G1), val(*H, G1))
        rule(u, I, '-%s,234' % nm, ['-'] + th(G1), -val(*H, G1))
        rule(u, I, nm + ',234,567', th(G1, G2), val(*H, G1, G2))
        rule(u, I, nm + ',234,567,890', th(G1, G2, G3), val(*H, G1, G2, G3))
        rule(u, I, nm + '{,}234', H + ['{,}', G1], val(*H, G1))
        rule(u, I, nm + '{,}234{,}567', H + ['{,}', G1, '{,}', G2], val(*H, G1, G2))
        rule(u, I, nm + ',234.5', th(G1) + ['.', B], val(*H, G1) + vfrac(B), decimal)


def unit_currency(u, part):
    w, I = setup(u)
    for s in ('$', '\\$'):
        rule(u, I, s + 'n', [s, A], ra(A))
        rule(u, I, s + ' n', [s + ' ', A], ra(A))
        rule(u, I, 'n' + s, [A, s], ra(A))
        rule(u, I, '-' + s + 'n', ['-' + s, A], -ra(A))
        for i, H in enumerate(HEADS):
            rule(u, I, s + '1%s,234' % ('0' * i), [s] + H + [',', G1], real(Reader.rint(H + [G1])))
        rule(u, I, s + 'a.b', [s, A, '.', B], ra(A) + vfrac(B), decimal)
    rule(u, I, '$n$', ['$', A, '$'], ra(A))
    for s in ('\\,', '\\:', '\\;', '\\!'):
        rule(u, I, 'digits with ' + s, [A, s, G1], real(Reader.rint([A, G1])))
        rule(u, I, 'n' + s, [A, s], ra(A))
        rule(u, I, s + 'n', [s, A], ra(A))


def unit_decimals(u, part):
    w, I = setup(u)
    rule(u, I, 'a.b', [A, '.', B], ra(A) + vfrac(B), decimal)
    rule(u, I, '-a.b', ['-', A, '.', B], -(ra(A) + vfrac(B)), decimal)
    rule(u, I, '.b', ['.', B], vfrac(B), decimal)


def unit_scientific(u, part):
    w, I = setup(u)
    x = vint(C_)
    # the written precision is up to the seven digits of '{:e}'; the value of the formatted text is assumed
    rule(u, I, 'aec', [A, 'e', C_], ra(A) * POW10(x))
    rule(u, I, 'a.bec', [A, '.', B, 'e', C_], (ra(A) + vfrac(B)) * POW10(x))
    rule(u, I, 'a.be+c', [A, '.', B, 'e+', C_], (ra(A) + vfrac(B)) * POW10(x))
    rule(u, I, 'a.be-c', [A, '.', B, 'e-', C_], (ra(A) + vfrac(B)) * POW10(-x))
    rule(u, I, '-a.bec', ['-', A, '.', B, 'e', C_], -((ra(A) + vfrac(B)) * POW10(x)))
    rule(u, I, 'a.b*10^{c}', [A, '.', B, '*10^{', C_, '}'], (ra(A) + vfrac(B)) * POW10(x))
    rule(u, I, 'a.b\\times10^{-c}', [A, '.', B, ' \\times 10^{-', C_, '}'], (ra(A) + vfrac(B)) * POW10(-x))


def unit_mixed(u, part):
    w, I = setup(u)
    b, c = digits('b', 1, 1), digits('c', 1, 1)
    q = lambda x, y: ra(x) / ra(y)
    nz = lambda y: [vint(y) > 0]
    for s, f in (('', 1), ('-', -1)):
        rule(u, I, s + 'A B/C', [s, A, ' ', B, '/', C_], f * (ra(A) + q(B, C_)), hyps=nz(C_))
        rule(u, I, s + 'A\\frac{B}{C}', [s, A, '\\frac{', B, '}{', C_, '}'], f * (ra(A) + q(B, C_)), hyps=nz(C_))
        rule(u, I, s + 'A \\frac{B}{C}', [s, A, ' \\frac{', B, '}{', C_, '}'], f * (ra(A) + q(B, C_)), hyps=nz(C_))
        rule(u, I, s + 'A\\dfrac{B}{C}', [s, A, '\\dfrac{', B, '}{', C_, '}'], f * (ra(A) + q(B, C_)), hyps=nz(C_))
        rule(u, I, s + 'A\\tfrac{B}{C}', [s, A, '\\tfrac{', B, '}{', C_, '}'], f * (ra(A) + q(B, C_)), hyps=nz(C_))
        rule(u, I, s + 'A\\frac bc', [s, A, '\\frac', b, c], f * (ra(A) + q(b, c)), hyps=nz(c))
        rule(u, I, s + 'B/C', [s, B, '/', C_], f * q(B, C_), hyps=nz(C_))
        rule(u, I, s + '\\frac{B}{C}', [s, '\\frac{', B, '}{', C_, '}'], f * q(B, C_), hyps=nz(C_))
    rule(u, I, 'A B/C + E F/C', [A, ' ', B, '/', C_, ' + ', E_, ' ', F_, '/', C_], ra(A) + q(B, C_) + ra(E_) + q(F_, C_), hyps=nz(C_))
    rule(u, I, 'A\\frac{B}{C}+E\\frac{F}{C}', [A, '\\frac{', B, '}{', C_, '}+', E_, '\\frac{', F_, '}{', C_, '}'], ra(A) + q(B, C_) + ra(E_) + q(F_, C_), hyps=nz(C_))
    rule(u, I, '\\frac{-B}{C}', ['\\frac{-', B, '}{', C_, '}'], -q(B, C_), hyps=nz(C_))


def unit_magnitude(u, part):
    w, I = setup(u)
    for word, e in (('million', 6), ('billion', 9), ('trillion', 12)):
        for sp in ('', ' '):
            rule(u, I, 'a' + sp + word, [A, sp + word], ra(A) * 10 ** e)
        rule(u, I, '-a ' + word, ['-', A, ' ' + word], -ra(A) * 10 ** e)
        rule(u, I, '$a.b ' + word, ['$', A, '.', B, ' ' + word], (ra(A) + vfrac(B)) * 10 ** e)
        for i, H in enumerate(HEADS):
            rule(u, I, '1%s,234 %s' % ('0' * i, word), H + [',', G1, ' ' + word], real(Reader.rint(H + [G1])) * 10 ** e)
        rule(u, I, 'a %s dollars' % word, [A, ' %s dollars' % word], ra(A) * 10 ** e)


def unit_percent(u, part):
    w, I = setup(u)
    for s in ('%', '\\%', ' \\%', '\\ %'[2:]):
        for nm, ps, v in (('a', [A], ra(A)), ('-a', ['-', A], -ra(A)), ('a.b', [A, '.', B], ra(A) + vfrac(B))) + tuple(('1%s,234' % ('0' * i), H + [',', G1], real(Reader.rint(H + [G1]))) for i, H in enumerate(HEADS)):
            rule(u, I, nm + s, ps + [s], [v, v / 100], near)


def unit_bases(u, part):
    w, I = setup(u)
    b = digits('b', 1, 1)
    POS = UF('in_base', U, U, INT)

    def dec(I, env):
        d, base = list(env.values())[:2]
        r = POS(I.to_u(d), I.to_u(base))
        I.assume(r >= 0)
        return r
    w.contracts[NO + '_str_to_decimal'] = C(dec)
    rule(u, I, 'd_b', [A, '_', b], [ra(A), real(POS(I.to_u(TextV([A])), I.to_u(TextV([b]))))])
    rule(u, I, 'd_{b}', [A, '_{', B, '}'], [ra(A), real(POS(I.to_u(TextV([A])), I.to_u(TextV([B]))))])


def unit_further(u, part):
    """further_string_normalize keeps the value of a numeral, a list of numerals and a multiple of pi."""
    w, I = setup(u)
    f = 'further_string_normalize'
    p180 = lambda v: v / 180 * PI
    rule(u, I, 'n', [A], ra(A), fn=f)
    rule(u, I, '-n', ['-', A], -ra(A), fn=f)
    rule(u, I, 'n and a space', [A, ' '], ra(A), fn=f)
    rule(u, I, 'a.b', [A, '.', B], ra(A) + vfrac(B), decimal, fn=f)
    rule(u, I, '-a.b', ['-', A, '.', B], -(ra(A) + vfrac(B)), decimal, fn=f)
    rule(u, I, 'a/b', [A, '/', B], ra(A) / ra(B), hyps=[vint(B) > 0], fn=f)
    rule(u, I, 'n/180*\\pi', [A, '/180*\\pi'], p180(ra(A)), fn=f)
    rule(u, I, '-n/180*\\pi', ['-', A, '/180*\\pi'], -p180(ra(A)), fn=f)
    rule(u, I, 'a.b/180*\\pi', [A, '.', B, '/180*\\pi'], p180(ra(A) + vfrac(B)), fn=f)
    # times of day: one or two digits each
    x, y, z = digits('x', 1, 2), digits('y', 1, 2), digits('z', 1, 2)
    rule(u, I, '[a, b]', ['[', x, ', ', y, ']'], (ra(x), ra(y)), fn=f)
    rule(u, I, '[a, b, c]', ['[', x, ', ', y, ', ', z, ']'], (ra(x), ra(y), ra(z)), fn=f)


LONG = ["立方厘米", "立方分米", "平方公里", "平方英尺", "平方英里", "平方英寸", "平方英寻", "千公里", "平方米", "立方米", "千米", "厘米", "分米", "海里", "毫米", "公里", "英里", "公尺", "英尺", "元", "分", "角", "米",
        "度", "里", "升", "centimeter", "second", "degree", "dollar", "minute", "radian", "square", "pound", "month", "units", "meter", "edges", "mile", "hour", "year", "cent", "foot", "feet", "inch",
        "yard", "week", "day", "rad", "mph"]
SHORT = ["eV", "kg", "mg", "km", "cm", "dm", "ml", "mL", "ft", "in"]
SINGLE = ["L", "l", "m", "g"]
HOURS = ["a.m.", "A.M.", "am", "AM"]
PLURAL = {"centimeter", "second", "degree", "dollar", "minute", "radian", "square", "pound", "month", "meter", "mile", "hour", "year", "cent", "inch", "yard", "week", "day"}


def plurals(x):
    return [x] + ([x + ('es' if x.endswith('ch') else 's')] if x in PLURAL else [])


def third(xs, k):
    return xs[k::3]


def in_braces(u, cmd, k):
    w, I = setup(u, modular=True)
    for unit in third(LONG + SHORT + SINGLE + HOURS[:1], k):
        for k, x in enumerate(plurals(unit)):
            fs = [('', x, ''), (' ', x, '')]
            if k == 0 and unit not in HOURS:
                fs += [(' ', ' ' + x, ''), ('', x, '^2'), ('', x, '^{12}'), ('', x + '^2', ''), ('', x + '^{3}', '')]
            for sp, inner, e in fs:
                rule(u, I, 'n%s\\%s{%s}%s' % (sp, cmd, inner, e), [A, '%s\\%s{%s}%s' % (sp, cmd, inner, e)], ra(A))
    for unit in third(('cm', 'dollars', 'm'), k):
        rule(u, I, '-a.b \\%s{%s}' % (cmd, unit), ['-', A, '.', B, ' \\%s{%s}' % (cmd, unit)], -(ra(A) + vfrac(B)), decimal)


def unit_units_text(u, part):
    in_braces(u, 'text', 0)


def unit_units_text_2(u, part):
    in_braces(u, 'text', 1)


def unit_units_text_3(u, part):
    in_braces(u, 'text', 2)


def unit_units_mbox(u, part):
    in_braces(u, 'mbox', 0)


def unit_units_mbox_2(u, part):
    in_braces(u, 'mbox', 1)


def unit_units_mbox_3(u, part):
    in_braces(u, 'mbox', 2)


def in_words(u, j):
    w, I = setup(u, modular=True)
    for unit in third(LONG + SHORT + HOURS, j):
        for k, x in enumerate(plurals(unit)):
            fs = [' ' + x] + ([x] if unit in LONG else [])
            if k == 0 and unit not in HOURS:
                fs += [' %s^2' % x, ' %s^{3}' % x]
            for f in fs:
                rule(u, I, 'n' + f, [A, f], ra(A))
    for unit in third(('cm', 'dollars', 'kg'), j):
        rule(u, I, '-a.b ' + unit, ['-', A, '.', B, ' ' + unit], -(ra(A) + vfrac(B)), decimal)
        rule(u, I, 'b/c ' + unit, [B, '/', C_, ' ' + unit], ra(B) / ra(C_), hyps=[vint(C_) > 0])


def unit_units_word(u, part):
    in_words(u, 0)


def unit_units_word_2(u, part):
    in_words(u, 1)


def unit_units_word_3(u, part):
    in_words(u, 2)


def unit_degrees(u, part):
    w, I = setup(u, modular=True)
    for f in ('^\\circ', '^{\\circ}', '^ \\circ', ' ^\\circ', '^{ \\circ }'):
        rule(u, I, 'n' + f, [A, f], [ra(A), ra(A) / 180 * PI])
        rule(u, I, '-n' + f, ['-', A, f], [-ra(A), -(ra(A) / 180 * PI)])
        rule(u, I, 'a.b' + f, [A, '.', B, f], [ra(A) + vfrac(B), (ra(A) + vfrac(B)) / 180 * PI])


def unit_times(u, part):
    w, I = setup(u, modular=True)
    H, M, S = digits('h', 1, 2), digits('m', 2, 2), digits('s', 2, 2)
    h, m, s = ra(H), ra(M), ra(S)
    dom = [vint(H) <= 23, vint(M) <= 59, vint(S) <= 59]
    h12 = z3.ToReal(vint(H) % 12)
    AM = ['am', ' am', ' a.m.', 'AM', ' A.M.', '\\text{am}', ' \\text{ a.m.}', ' \\text{AM }']
    PM = [x.replace('a', 'p').replace('A', 'P').replace('pM', 'PM') for x in AM]
    assert PM[5] == '\\text{pm}' and PM[7] == ' \\text{PM }', PM

    def both(*rest):
        return [(h12,) + rest, (h12 + 12,) + rest] if rest else [h12, h12 + 12]
    for x in AM + PM:
        pm = 'p' in x.lower()
        rule(u, I, 'h' + x, [H, x], both() if pm else h, hyps=dom[:1])
    for x in [''] + AM + PM:
        pm = 'p' in x.lower()
        one = lambda *r: both(*r) if pm else ((h,) + r if r else h)
        rule(u, I, 'h:00' + x, [H, ':', M, x], one(), hyps=dom + [vint(M) == 0])
        rule(u, I, 'h:mm' + x, [H, ':', M, x], one(m), hyps=dom + [vint(M) > 0])
        rule(u, I, 'h:00:00' + x, [H, ':', M, ':', S, x], one(), hyps=dom + [vint(M) == 0, vint(S) == 0])
        rule(u, I, 'h:mm:00' + x, [H, ':', M, ':', S, x], one(m), hyps=dom + [vint(M) > 0, vint(S) == 0])
        rule(u, I, 'h:mm:ss' + x, [H, ':', M, ':', S, x], one(m, s), hyps=dom + [vint(S) > 0])


class DigText:
    """A digit string of length n, digit by digit."""
    is_seg = True
    DG = z3.Function('digit', INT, INT)
    V, HO = z3.Function('low_digits', INT, INT), z3.Function('high_digits', INT, INT)

    def __init__(self, n, b, rev=False):
        self.n, self.b, self.rev = n, b, rev

    def pw(self, i):
        return z3.Function('ipow', INT, INT, INT)(self.b, i)

    def key(self):
        return 'digits%s' % ('[::-1]' if self.rev else '')

    def sym_u(self, I):
        return z3.Const(self.key(), U)

    def sym_len(self, I):
        return self.n

    def sym_truth(self, I):
        return self.n > 0

    def base(self):
        return z3.And(self.n >= 0, self.V(0) == 0, self.HO(0) == 0, self.pw(z3.IntVal(0)) == 1)

    def at(self, I, p):
        p = z3.simplify(self.n - 1 - rv(p) if self.rev else rv(p))
        if I.ex is not None:
            i = z3.simplify(self.n - 1 - p)
            I.assume(z3.And(self.DG(p) >= 0, self.DG(p) <= 9, self.HO(p + 1) == self.HO(p) * self.b + self.DG(p), self.V(i + 1) == self.V(i) + self.pw(i) * self.DG(p),
                            self.pw(i + 1) == self.b * self.pw(i), self.pw(p + 1) == self.b * self.pw(p)))
        return DigChar(self, p)

    def sym_iter(self, I):
        return SeqV('iter', self.n, lambda i: self.at(DecWorld.current.I, i))

    def sym_index(self, I, k):
        if not is_int(k):
            I.raise_(TypeError)
        k = rv(k)
        if I.choose(z3.Or(k >= self.n, k < -self.n)):
            I.raise_(IndexError)
        return self.at(I, self.n + k if I.choose(k < 0) else k)

    def sym_slice(self, I, lo, hi, st):
        if lo is None and hi is None and st in (None, 1, -1):
            return DigText(self.n, self.b, self.rev != (st == -1))
        raise Unsupported('slice of a digit string')


class DigChar:
    is_seg = True

    def __init__(self, t, p):
        self.t, self.p = t, p

    def key(self):
        return 'digit %s' % self.p

    def sym_u(self, I):
        return z3.Function('digit_char', INT, U)(self.p)

    def sym_truth(self, I):
        return True


class DecWorld(CmpWorld):
    det = True
    current = None

    def __init__(self):
        CmpWorld.__init__(self)
        DecWorld.current = self
        self.b, self.n = z3.Int('base'), z3.Int('n')
        self.text = DigText(self.n, self.b)
        self.base_text = Ob(z3.Const('base text', U), 'str')

    def builtin(self, name, args, kw):
        if name == 'int' and len(args) == 1:
            if isinstance(args[0], DigChar):
                return self.text.DG(args[0].p)
            if isinstance(args[0], Ob) and args[0].t.eq(self.base_text.t):
                return self.b
        return None

    def loop_candidates(self, I, traces, at, seq):
        t = self.text
        out = []
        for L in traces:
            if L.kind == 'int':
                for f in (t.V, t.HO, t.pw):
                    out.append(lambda i, L=L, f=f: at(L, i) == f(E.rv(i)))
        return out


def unit_to_decimal(u, part):
    """_str_to_decimal: the sum of digit times power of the base, for any number of digits and any base."""
    w = DecWorld()
    u.timeout_ms = 10000
    I = u.interp(w)
    t, b, n = w.text, w.b, w.n
    k = z3.Int('k')
    # lemma: reading from the left gives the same number (induction on k, the number of digits read from the left)
    P = lambda k: t.HO(k) * t.pw(n - k) + t.V(n - k) == t.V(n)
    u.prove('lemma, no digits read', [t.base()], P(z3.IntVal(0)))
    m = n - k - 1
    step = [t.HO(k + 1) == t.HO(k) * b + t.DG(k), t.pw(n - k) == b * t.pw(m), t.V(n - k) == t.V(m) + t.pw(m) * t.DG(k)]
    u.prove('lemma, one digit more', [k >= 0, k < n, P(k)] + step, t.HO(k + 1) * t.pw(m) + t.V(m) == t.V(n))
    u.prove('lemma, all digits read', [t.base(), t.HO(n) * t.pw(z3.IntVal(0)) + t.V(z3.IntVal(0)) == t.V(n)], t.HO(n) == t.V(n))
    u.cover('digit strings', [t.base(), n > 3])
    res = u.explore(I, NO + '_str_to_decimal', [t, w.base_text], prepare=lambda: I.assume(t.base()))
    for i, r in enumerate(res):
        tag = path_tag(i)
        if r.kind == 'raise' or not is_int(r.value):
            u.prove(tag + ': a number is returned', r.pc, False, imprecise=bool(r.taint))
            continue
        u.prove(tag + ': digits times powers of the base', r.pc + [t.HO(n) == t.V(n)], rv(r.value) == t.V(n), imprecise=bool(r.taint))


def unit_strip_commas(u, part):
    """_strip_properly_formatted_commas removes exactly the commas between a group of up to three digits and groups of three."""
    w, I = setup(u)
    W = [Chunk('W%d' % i, frozenset(chr(i) for i in range(32, 127)) - DIGITS - frozenset(', .'), 1, None) for i in range(4)]
    D1, D2 = digits('D1', 1, 1), digits('D2', 2, 2)
    D4 = digits('D4', 4, 4)

    def case(name, pieces, want):
        def go():
            t = TextV(pieces)
            for i, r in enumerate(u.explore(I, NO + '_strip_properly_formatted_commas', [t])):
                imp = bool(r.taint)
                tag = '%s, %s' % (name, path_tag(i))
                if r.kind == 'raise':
                    u.prove(tag + ': no exception', r.pc, False, imprecise=imp)
                    continue
                I.heap = dict(r.snap[1])
                v = r.value
                same = isinstance(v, (str, TextV)) and (v if isinstance(v, str) else TextV(v.pieces).key()) == TextV(want).key()
                u.prove(tag + ': exactly the grouping commas go', r.pc, same, imprecise=imp, info='%r' % (v,))
        u.attempt(name, go)
    case('no commas', [W[0], D2, W[1]], [W[0], D2, W[1]])
    case('commas between words', [W[0], ',', W[1], ',', W[2]], [W[0], ',', W[1], ',', W[2]])
    for h in HEADS:
        nm = 'ddd'[:len(h) + (len(h) > 1 and h[1].lo - 1)]
        case('%s,ddd' % nm, h + [',', G1], h + [G1])
        case('w %s,ddd w' % nm, [W[0]] + h + [',', G1, W[1]], [W[0]] + h + [G1, W[1]])
        case('%s,ddd,ddd' % nm, h + [',', G1, ',', G2], h + [G1, G2])
        case('(%s,ddd)' % nm, ['('] + h + [',', G1, ')'], ['('] + h + [G1, ')'])
        case('%s,ddd,dd' % nm, h + [',', G1, ',', D2], h + [G1, ',', D2])
        case('%s,dddd' % nm, h + [',', D4], h + [',', D4])
        case('%s,ddd,dddd' % nm, h + [',', G1, ',', D4], h + [G1, ',', D4])
        case('two numbers %s' % nm, h + [',', G1, W[0], N1, D2, ',', G2], h + [G1, W[0], N1, D2, G2])
        case('w,%s,ddd,' % nm, [W[0], ','] + h + [',', G1, ',', W[1]], [W[0], ','] + h + [G1, ',', W[1]])
        case('d.%s,ddd' % nm, [W[0], D1, '.'] + h + [',', G1], [W[0], D1, '.'] + h + [',', G1])
    case('ddd,dd', [N1, D2, ',', D2], [N1, D2, ',', D2])
    case('d,d', [D1, ',', D1], [D1, ',', D1])
    case('dddd,ddd', [N1, G1, ',', G2], [N1, G1, ',', G2])
    case('ddddd,ddd', [N1, D4, ',', G2], [N1, D4, ',', G2])
    case('0,ddd', ['0,', G1], ['0,', G1])
    case('0dd,ddd', ['0', D2, ',', G1], ['0', D2, ',', G1])
    case('d.ddd,ddd', [N1, '.', G1, ',', G2], [N1, '.', G1, ',', G2])
    case('(dd,d)', ['(', D2, ',', D1, ')'], ['(', D2, ',', D1, ')'])
    case('(d, dd)', ['(', D1, ', ', D2, ')'], ['(', D1, ', ', D2, ')'])
    case('w,ddd', [W[0], ',', G1], [W[0], ',', G1])
    case('ddd,w', [G1, ',', W[0]], [G1, ',', W[0]])
