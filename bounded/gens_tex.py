"""Cases of the LaTeX parser properties: random trees written as LaTeX, with their values computed from the tree."""
import math
import random
from fractions import Fraction


def N(tier, q, t):
    return t if tier == 'thorough' else q


class Bad(Exception):
    pass


SYMS = {'x': 'x', 'y': 'y', 'z': 'z', 'a': 'a', 'b': 'b', 'n': 'n', 'k': 'k', 'x_1': 'x_1', 'y_{12}': 'y_{12}', '\\alpha ': 'alpha', '\\beta ': 'beta', '\\theta ': 'theta', '\\bar{x}': 'xbar',
        '\\vec{v}': 'vvec', 'A': 'A', 'R': 'R', '\\Omega ': 'Omega', '\\mathit{abc}': '\\mathit{abc}', 'a_n': 'a_n', '\\tilde{y}': 'ytilde', 'z_{123}': 'z_{123}', 'z_{124}': 'z_{124}', 'a_{n+1}': 'a_{n+1}', 'a_{n+2}': 'a_{n+2}', 'N': 'N', 'S': 'S', 'i': 'i', 'm_{k}': 'm_k'}
# precedences: how tightly a written text holds together
ADD, MUL, IMP, UN, POW, ATOM = 1, 2, 4, 3, 5, 6


class T:
    """Text, precedence, value function of the point, and whether it starts with a digit / a symbol that could be applied."""
    def __init__(self, s, p, f, kind='', names=()):
        self.s, self.p, self.f, self.kind, self.names = s, p, f, kind, frozenset(names)


def grp(rng, t):
    o, c = rng.choice([('(', ')')] * 4 + [('\\left(', '\\right)'), ('\\left[', '\\right]'), ('\\left\\{', '\\right\\}'), ('{', '}'), ('\\{', '\\}'), ('\\lgroup ', '\\rgroup '), ('\\mleft(', '\\mright)')])
    return T(o + t.s + c, ATOM, t.f, 'group' if o[0] != '{' else 'brace', t.names)


def need(rng, t, p, no=()):
    """Parenthesise unless the text holds together at least as tightly as p."""
    if t.p >= p and t.kind not in no:
        return t
    o, c = rng.choice([('(', ')')] * 3 + [('\\left(', '\\right)'), ('\\left[', '\\right]')])
    return T(o + t.s + c, ATOM, t.f, 'group', t.names)


def number(rng, integer=False):
    k = rng.random()
    if integer or k < .5:
        v = rng.randint(0, 12) if k > .1 else rng.randint(13, 999)
        return T('%d' % v, ATOM, lambda p, v=v: Fraction(v), 'num')
    if k < .72:
        a, b = rng.randint(0, 40), rng.randint(0, 99)
        s = '%d.%02d' % (a, b)
    elif k < .78:
        s = '.%d' % rng.randint(1, 99)
    elif k < .86:
        s = '%d,%03d' % (rng.randint(1, 99), rng.randint(0, 999)) + rng.choice(['', '.5', ',%03d' % rng.randint(0, 999)])
    elif k < .93:
        m, e = rng.choice(['2', '1.5', '12', '0.25']), rng.randint(0, 4)
        s = '%sE%s%d' % (m, rng.choice(['', '-', '+']), e)
        v = Fraction(s.replace('E', 'e'))
        return T(s, ATOM, lambda p, v=v: v, 'num')
    else:
        s = rng.choice(['%d' % rng.randint(1, 200), '12.5', '1,200', '0.5'])
        v = Fraction(s.replace(',', '')) / 100
        return T(s + '\\%', ATOM, lambda p, v=v: v, 'num')
    v = Fraction(s.replace(',', ''))
    return T(s, ATOM, lambda p, v=v: v, 'num')


def symbol(rng):
    s = rng.choice(list(SYMS))
    n = SYMS[s]
    return T(s, ATOM, lambda p, n=n: p[n], 'sym', [n])


def pw(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction) and b.denominator == 1 and abs(b) <= 12:
        if a == 0 and b <= 0:
            raise Bad
        return a ** int(b)
    a, b = float(a), float(b)
    if a <= 0 or abs(b * math.log(a)) > 25:
        raise Bad
    v = a ** b
    return v


def isint(v):
    return abs(v - round(v)) < 1e-9


POOL = []


def tree(rng, d):
    if d == 0 or rng.random() < .12:
        return number(rng) if rng.random() < .45 else symbol(rng)
    k = rng.random()

    def sub():
        # sometimes the same part again
        if POOL and rng.random() < .12:
            t = rng.choice(POOL[-4:])
            if len(t.s) < 30:
                return t
        t = tree(rng, d - 1)
        POOL.append(t)
        return t
    if k < .24:
        a = sub()
        op = rng.choice('+-')
        b = need(rng, sub(), MUL)
        if b.kind == 'neg' and rng.random() < .8:
            b = grp(rng, b)
        g = (lambda p: a.f(p) + b.f(p)) if op == '+' else (lambda p: a.f(p) - b.f(p))
        sp = rng.choice(['', ' '])
        return T(a.s + sp + op + sp + b.s, ADD, g, 'add', a.names | b.names)
    if k < .46:
        a = need(rng, sub(), MUL)
        op = rng.choice(['*', '\\cdot ', '\\times ', '/', ':', '\\div ', '/', '\\cdot '])
        div = op in '/:' or op == '\\div '
        b = need(rng, sub(), IMP if not div else POW)
        if a.kind == 'neg' and False:
            a = grp(rng, a)

        def g(p):
            x, y = a.f(p), b.f(p)
            if div:
                if y == 0:
                    raise Bad
                return x / y
            return x * y
        return T(a.s + ' ' * rng.randint(0, 1) + op + b.s, MUL, g, 'mul', a.names | b.names)
    if k < .58:
        n = rng.randint(2, 4)
        fs = []
        for i in range(n):
            t = sub() if rng.random() < .6 else symbol(rng)
            if i == 0 and rng.random() < .4:
                t = number(rng)
            t = need(rng, t, POW)
            if i > 0 and (t.kind in ('num', 'brace') or t.s[:1].isdigit() or t.s[:1] == '.' or t.s.startswith('\\frac') and fs[-1].kind == 'num'):
                t = T('(' + t.s + ')', ATOM, t.f, 'group', t.names)
            if fs and (fs[-1].kind == 'abs' or fs[-1].s.endswith('|')) and t.s.startswith('|'):
                t = T('(' + t.s + ')', ATOM, t.f, 'group', t.names)
            fs.append(t)
        for i in range(n - 1, 0, -1):
            t = fs[i]
            if fs[i - 1].kind not in ('num', 'group', 'frac', 'root', 'abs', 'floor', 'binom') and (t.s[:1] in '([{' or t.s.startswith(('\\left', '\\mleft', '\\lgroup', '\\{', '\\lbr'))):
                # a symbol in front of a group would be a function application
                u = fs[i - 1]
                fs[i - 1] = T('(' + u.s + ')', ATOM, u.f, 'group', u.names)

        def g(p):
            v = Fraction(1)
            for t in fs:
                v = v * t.f(p)
            return v
        return T(rng.choice(['', ' ']).join(t.s for t in fs), IMP, g, 'imp', frozenset().union(*[t.names for t in fs]))
    if k < .66:
        a = need(rng, sub(), IMP)
        s = rng.choice(['-', '-', '-', '+'])
        return T(s + a.s, UN, (lambda p: -a.f(p)) if s == '-' else a.f, 'neg', a.names)
    if k < .76:
        b = need(rng, sub(), ATOM)
        if b.kind in ('num',) and (b.s.endswith('%') or 'E' in b.s):
            b = T('(' + b.s + ')', ATOM, b.f, 'group')
        if b.kind in ('frac',):
            b = T('(' + b.s + ')', ATOM, b.f, 'group', b.names)
        e = tree(rng, min(1, d - 1)) if rng.random() < .4 else number(rng, True)
        if rng.random() < .5 and len(e.s) == 1:
            return T(b.s + '^' + e.s, POW, lambda p: pw(b.f(p), e.f(p)), 'pow', b.names | e.names)
        return T(b.s + '^{' + e.s + '}', POW, lambda p: pw(b.f(p), e.f(p)), 'pow', b.names | e.names)
    if k < .85:
        a, b = sub(), sub()
        cmd = rng.choice(['\\frac', '\\frac', '\\dfrac', '\\tfrac'])
        dg = lambda t: t.s if len(t.s) == 1 and t.s.isdigit() and rng.random() < .5 else '{' + t.s + '}'

        def g(p):
            y = b.f(p)
            if y == 0:
                raise Bad
            return a.f(p) / y
        return T(cmd + dg(a) + dg(b), ATOM, g, 'frac', a.names | b.names)
    if k < .89:
        a = sub()
        m = rng.choice([None, 2, 3, 4, 5])

        def g(p):
            v = float(a.f(p))
            if v <= 0:
                raise Bad
            return v ** (1.0 / (m or 2))
        return T('\\sqrt' + ('[%d]' % m if m else '') + '{' + a.s + '}', ATOM, g, 'root', a.names)
    if k < .93:
        a = sub()
        if '|' in a.s or '\\vert' in a.s:
            raise Bad
        o, c = rng.choice([('|', '|'), ('\\left|', '\\right|'), ('\\lvert ', '\\rvert '), ('\\left\\lvert ', '\\right\\rvert ')])
        return T(o + a.s + c, ATOM, lambda p: abs(a.f(p)), 'abs', a.names)
    if k < .96:
        a = sub()
        fl = rng.random() < .5
        o, c = rng.choice([('\\lfloor ', '\\rfloor '), ('\\left\\lfloor ', '\\right\\rfloor '), ('\\llcorner ', '\\lrcorner ')] if fl else
                          [('\\lceil ', '\\rceil '), ('\\left\\lceil ', '\\right\\rceil '), ('\\ulcorner ', '\\urcorner ')])

        def g(p):
            v = a.f(p)
            if not isinstance(v, Fraction) and isint(v):
                raise Bad
            return Fraction(math.floor(v) if fl else math.ceil(v))
        return T(o + a.s + c, ATOM, g, 'floor', a.names)
    if k < .98:
        v = rng.randint(0, 6)
        if rng.random() < .5:
            w = rng.randint(0, v)
            t = T('(%d-%d)' % (v, w), ATOM, None)
            v = v - w
            s = t.s + '!'
        else:
            s = '%d!' % v
        return T(s, POW, lambda p, v=v: Fraction(math.factorial(v)), 'fact')
    if k < .99:
        n, r = rng.randint(0, 9), rng.randint(0, 9)
        s = rng.choice(['\\binom{%d}{%d}', '\\tbinom{%d}{%d}', '\\dbinom{%d}{%d}', '{%d \\choose %d}']) % (n, r)
        return T(s, ATOM, lambda p: Fraction(math.comb(n, r)), 'binom')
    a, b = rng.randint(0, 60), rng.randint(2, 9)
    return T('(%d \\mod %d)' % (a, b), ATOM, lambda p: Fraction(a % b), 'group')


def mkpoint(rng, names):
    return {n: Fraction(rng.randint(1, 40), rng.choice([1, 2, 3, 5, 7])) for n in names}


def fr(v):
    return str(v) if isinstance(v, Fraction) else float(v)


def value_case(rng, t):
    pts = []
    for _ in range(3):
        p = mkpoint(rng, sorted(t.names))
        try:
            v = t.f(p)
        except (Bad, OverflowError, ZeroDivisionError):
            return None
        if abs(v) > 1e9 or v != 0 and abs(v) < 1e-9:
            return None
        pts.append([{k: str(x) for k, x in p.items()}, fr(v)])
    return ['value', dict(tex=t.s, at=pts)]


FIX13 = [('1-2-3', -4), ('8/4/2', 1), ('8:4:2', 1), ('8\\div 4\\div 2', 1), ('2-3+4', 3), ('12/3\\cdot 2', 8), ('2+3*4', 14), ('(2+3)*4', 20), ('-2^2', -4), ('(-2)^2', 4), ('2^{-1}', '1/2'), ('2^{3^2}', 512),
         ('17 \\mod 5', 2), ('10-17 \\mod 5', 8), ('7.5 \\mod 2', '3/2'), ('3!', 6), ('2\\cdot 3!', 12), ('(3)!', 6), ('3!!', 720), ('5-3!', -1), ('\\frac12', '1/2'), ('\\frac{1}{2}', '1/2'), ('\\frac1{2}', '1/2'),
         ('\\frac{1}2', '1/2'), ('\\frac{3-1}{4+4}', '1/4'), ('\\sqrt{9}', 3), ('\\sqrt9', 3), ('\\sqrt[3]{27}', 3), ('\\sqrt[4]{16}', 2), ('\\sqrt[3]{8}+1', 3), ('|-3|', 3), ('|3-5|', 2), ('2|-3|', 6), ('\\lfloor 2.7 \\rfloor', 2),
         ('\\lfloor -2.7 \\rfloor', -3), ('\\lceil 2.2 \\rceil', 3), ('\\lceil -2.2 \\rceil', -2), ('\\binom{5}{2}', 10), ('\\binom{2}{5}', 0), ('{5 \\choose 2}', 10), ('50\\%', '1/2'), ('12.5\\%', '1/8'), ('1,200\\%', 12),
         ('200\\%\\cdot 3', 6), ('1,234', 1234), ('1,234,567.5', '2469135/2'), ('.5', '1/2'), ('0.5', '1/2'), ('1.5E3', 1500), ('2E-2', '1/50'), ('1,000E3', 1000000), ('3E+2', 300), ('2(3+4)', 14), ('(1+2)(3+4)', 21),
         ('2(3)(4)', 24), ('\\left(1+2\\right)^2', 9), ('{2}^{3}', 8), ('{1+2}\\cdot 3', 9), ('[1+2]\\cdot 3', 9), ('\\left\\{1+2\\right\\}\\cdot 3', 9), ('--3', 3), ('-+-3', 3), ('2\\cdot -3', -6), ('2--3', 5), ('2+-3', -1),
         ('0.1+0.2', '3/10'), ('1/3', '1/3'), ('\\pi', math.pi), ('2\\pi', 2 * math.pi), ('\\dfrac{1}{4}', '1/4'), ('\\tfrac{1}{4}', '1/4'), ('\\frac{\\dfrac12}{\\tfrac14}', 2), ('(5)_{2}', 20), ('0', 0), ('100', 100), ('007', 7),
         ('123456789012345678901234567890', '123456789012345678901234567890'), ('0.000001', '1/1000000'), ('10^{-3}', '1/1000'), ('2\\quad + 3', 5), ('2\\,+\\,3', 5), ('$2+3$', 5), ('\\displaystyle 2+3', 5), ('4~-~1', 3),
         ('I', [0, 1]), ('I^2', -1), ('2I^{3}', [0, -2]), ('3+I^2', 2), ('3-I^3', [3, 1]), ('I^4\\cdot 5', 5), ('I\\cdot I', -1), ('2I+I', [0, 3]), ('\\frac{1}{I}', [0, -1]), ('(1+I)^2', [0, 2]), ('I^{-1}', [0, -1]), ('I 2', [0, 2]),
         ('|3+4I|', 5), ('-I^2', 1), ('((-2)^2)^{\\frac12}', 2), ('((-3)^2)^{0.5}', 3), ('x^2|_{x=3}', 9), ('x^2|^{x=3}_{x=1}', 8), ('(2x+1)|^{x=5}_{x=-1}', 12), ('\\frac{x}{2}|_{x=\\frac12}', '1/4'),
         ('(x^2+x)|^{x=3}_{x=1}', 10), ('1+(2+2)', 5), ('2-(3+3)', -4), ('2-(3-3)', 2), ('2(3\\cdot 3)', 18), ('5-(1+1+1)', 2)]


def gen_P13(rng, tier):
    cs = []
    for s, v in FIX13:
        cs.append(['value', dict(tex=s, at=[[{}, v]])])
    n = 0
    while n < N(tier, 900, 12000):
        POOL.clear()
        try:
            t = tree(rng, rng.choice([1, 2, 2, 3, 3, 4]))
        except Bad:
            continue
        if len(t.s) > 140:
            continue
        c = value_case(rng, t)
        if c:
            n += 1
            cs.append(c)
    for v in ('0.1', '1.1E1', '2.5E-3', '1.1E25', '12345678901234567.25', '3E-20', '1,234,567.0000001', '99999999999999999999', '0.30000000000000004', '12.3E-4', '1,000.1E2'):
        cs.append(['object', dict(tex=v, want="Rational('%s')" % v.replace(',', '').replace('E', 'e'))])
        cs.append(['object', dict(tex='x+' + v, want="x+Rational('%s')" % v.replace(',', '').replace('E', 'e'))])
    for v, w in (('\\binom{n}{2}', 'binomial(n, 2)'), ('\\binom{n}{k}', 'binomial(n, k)'), ('{n \\choose 2}', 'binomial(n, 2)'), ('{n \\choose k}', 'binomial(n, k)'), ('\\tbinom{5}{k}', 'binomial(5, k)'),
                 ('\\dbinom{n+1}{k-1}', 'binomial(n+1, k-1)'), ('x^2|_{x=y}', 'y**2'), ('(x^2+1)|_{x=y+1}', '(y+1)**2+1'), ('(x^2+x)|^{x=2y}_{x=y}', '3*y**2+y'), ('x!', 'factorial(x)'), ('(n+1)!', 'factorial(n+1)')):
        cs.append(['object', dict(tex=v, want=w)])
    rel = [('=', 'Eq'), ('==', 'Eq'), ('\\equiv ', 'Eq'), ('<', 'StrictLessThan'), ('\\le ', 'LessThan'), ('\\leq ', 'LessThan'), ('\\leqslant ', 'LessThan'), ('>', 'StrictGreaterThan'), ('\\ge ', 'GreaterThan'),
           ('\\geq ', 'GreaterThan'), ('\\geqslant ', 'GreaterThan'), ('\\ne ', 'Ne'), ('\\neq ', 'Ne'), ('!=', 'Ne')]
    sides = [('x', 'x'), ('y+1', 'y+1'), ('2z', '2*z'), ('3', 'Integer(3)'), ('\\frac{x}{y}', 'x/y'), ('-x^2', '-x**2'), ('|x-7|', 'Abs(x-7)')]
    for o, c in rel:
        for (s, w), (s2, w2) in [rng.sample(sides, 2) for _ in range(N(tier, 3, 12))]:
            cs.append(['object', dict(tex=s + ' ' + o + s2, want='%s(%s, %s, evaluate=False)' % (c, w, w2))])
    for s, w in (('x, y, z', '[x, y, z]'), ('[x, y]', '[x, y]'), ('1; 2; 3', '[Integer(1), Integer(2), Integer(3)]'), ('x+1, 2y', '[x+1, 2*y]'), ('x<1, y=2', '[x<1, Eq(y, 2)]'), ('\\{1, x\\}', '[Integer(1), x]'),
                 ('\\left[a, b, c\\right]', '[a, b, c]')):
        cs.append(['object', dict(tex=s, want=w)])
    rng.shuffle(cs)
    return cs


# ------------------------------------------------------------------ P14
ARGS = [('x', 'x'), ('x+1', '(x+1)'), ('2x', '(2*x)'), ('x y', '(x*y)'), ('\\frac{x}{y}', '(x/y)'), ('x^2', '(x**2)'), ('3', 'Integer(3)'), ('\\pi x', '(pi*x)'), ('\\sqrt{y}', 'sqrt(y)'), ('-x', '(-x)'), ('\\frac12', 'Rational(1,2)'),
        ('x-y', '(x-y)'), ('\\alpha ', "Sy('alpha')"), ('x_1', "Sy('x_1')")]
F1 = {'\\sin': 'sin', '\\cos': 'cos', '\\tan': 'tan', '\\csc': 'csc', '\\sec': 'sec', '\\cot': 'cot', '\\arcsin': 'asin', '\\arccos': 'acos', '\\arctan': 'atan', '\\arccsc': 'acsc', '\\arcsec': 'asec', '\\arccot': 'acot',
      '\\sinh': 'sinh', '\\cosh': 'cosh', '\\tanh': 'tanh', '\\arsinh': 'asinh', '\\arcosh': 'acosh', '\\artanh': 'atanh', '\\arcsinh': 'asinh', '\\arccosh': 'acosh', '\\arctanh': 'atanh', '\\ln': 'log', '\\exp': 'exp',
      '\\operatorname{arsinh}': 'asinh', '\\operatorname{arcosh}': 'acosh', '\\operatorname{artanh}': 'atanh', '\\operatorname{arcsinh}': 'asinh', '\\operatorname{arccosh}': 'acosh', '\\operatorname{arctanh}': 'atanh',
      '\\floor': 'floor', '\\ceil': 'ceiling', '\\operatorname{floor}': 'floor', '\\operatorname{ceil}': 'ceiling', '\\log': '(lambda t: log(t)/log(10))'}


def gen_P14(rng, tier):
    cs = []
    ob = lambda t, w: cs.append(['object', dict(tex=t, want=w)])
    par = lambda: rng.choice([('(', ')'), ('\\left(', '\\right)')])
    for f, w in F1.items():
        for t, a in rng.sample(ARGS, N(tier, 4, 14)):
            o, c = par()
            ob(f + o + t + c, '%s(%s)' % (w, a))
            ob(f + o + t + c + '+1', '%s(%s)+1' % (w, a))
            ob('2' + f + o + t + c, '2*%s(%s)' % (w, a))
            n = rng.choice([2, 3])
            ob(f + '^{%d}' % n + o + t + c, '%s(%s)**%d' % (w, a, n))
            ob(f + '^%d' % n + o + t + c, '%s(%s)**%d' % (w, a, n))
            ob(f + '^{n}' + o + t + c, '%s(%s)**n' % (w, a))
            ob(f + '^{0}' + o + t + c, '%s(%s)**0' % (w, a))
            ob(f + o + t + c + '^2', '%s(%s)**2' % (w, a))
        for t, a in [('x', 'x'), ('2x', '2*x'), ('x^2', 'x**2'), ('\\frac{x}{2}', 'x/2'), ('\\theta', "Sy('theta')")]:
            ob(f + ' ' + t, '%s(%s)' % (w, a))
            ob(f + ' ' + t + '+1', '%s(%s)+1' % (w, a))
            ob(f + '^{2} ' + t, '%s(%s)**2' % (w, a))
    for f in ('sin', 'cos', 'tan', 'csc', 'sec', 'cot', 'sinh', 'cosh', 'tanh'):
        for t, a in rng.sample(ARGS, 3):
            ob('\\%s^{-1}(%s)' % (f, t), 'a%s(%s)' % (f, a))
            ob('\\%s^{-2}(%s)' % (f, t), '%s(%s)**-2' % (f, a))
            ob('\\%s(%s)^{-1}' % (f, t), '%s(%s)**-1' % (f, a))
    ob('\\sin x \\cos y', 'sin(x)*cos(y)')
    ob('\\sin 2x \\cos 3y', 'sin(2*x)*cos(3*y)')
    ob('\\sin^2 x+\\cos^2 y', 'sin(x)**2+cos(y)**2')
    ob('x\\sin y', 'x*sin(y)')
    ob('\\sin\\cos x' if False else '\\sin(\\cos(x))', 'sin(cos(x))')
    for b, w in (('2', '2'), ('3', '3'), ('10', '10'), ('a', 'a'), ('x+1', '(x+1)'), ('n', 'n'), ('\\frac12', 'Rational(1,2)')):
        for t, a in rng.sample(ARGS, N(tier, 3, 10)):
            sub = '_{%s}' % b if len(b) > 1 or rng.random() < .5 else '_' + b
            for f in ('\\log', '\\ln'):
                ob('%s%s(%s)' % (f, sub, t), 'log(%s)/log(%s)' % (a, w))
                ob('%s_{%s}^2(%s)' % (f, b, t), '(log(%s)/log(%s))**2' % (a, w))
                ob('%s^3%s(%s)' % (f, sub, t), '(log(%s)/log(%s))**3' % (a, w))
                ob('2%s%s(%s)-1' % (f, sub, t), '2*log(%s)/log(%s)-1' % (a, w))
            if t[0] not in '-0123456789':
                ob('\\log%s{%s}' % (sub, t), 'log(%s)/log(%s)' % (a, w))
    for t, a in ARGS:
        ob('e^{%s}' % t, 'exp(%s)' % a)
        ob('\\exponentialE^{%s}' % t, 'exp(%s)' % a)
        ob('3e^{%s}+1' % t, '3*exp(%s)+1' % a)
        for m in ('2', '3', '4', 'n', 'k+1'):
            ob('\\sqrt[%s]{%s}' % (m, t), 'Pow(%s, 1/(%s))' % (a, m if m.isalpha() or '+' in m else 'Integer(%s)' % m))
        ob('\\sqrt{%s}' % t, 'Pow(%s, Rational(1,2))' % a)
        ob('2\\sqrt{%s}' % t, '2*Pow(%s, Rational(1,2))' % a)
    for t, w in (('e', 'exp(1)'), ('2e', '2*exp(1)'), ('e^x y', 'exp(x)*y'), ('e^{x+y}', 'exp(x+y)'), ('e^2', 'exp(2)'), ('x e^{-x}', 'x*exp(-x)')):
        ob(t, w)
    for _ in range(N(tier, 40, 200)):
        k = rng.randint(2, 4)
        v = [rng.choice([4, 6, 8, 12, 15, 18, 20, 21, 30, 36, 45, 60]) for _ in range(k)]
        sep = rng.choice([', ', ','])
        o, c = par()
        for f, w in (('\\gcd', 'gcd'), ('\\lcm', 'lcm'), ('\\operatorname{gcd}', 'gcd'), ('\\operatorname{lcm}', 'lcm')):
            ob(f + o + sep.join(map(str, v)) + c, 'Integer(%d)' % (math.gcd(*v) if w == 'gcd' else math.lcm(*v)))
        u = [rng.choice([v[0], -3, 7, 9, 2, 'x', 'y', 'x+1', '2y', '\\frac{x}{2}']) for _ in range(k)]
        tr = {'2y': '2*y', '\\frac{x}{2}': 'x/2'}
        wr = ', '.join(str(tr.get(q, q)) for q in u)
        ob('\\max' + o + sep.join(map(str, u)) + c, 'Max(%s)' % wr)
        ob('\\min' + o + sep.join(map(str, u)) + c, 'Min(%s)' % wr)
        ob('\\min' + '^2' + o + sep.join(map(str, u)) + c, 'Min(%s)**2' % wr)
        ob('3\\max' + o + sep.join(map(str, u)) + c + '-1', '3*Max(%s)-1' % wr)
    for t, w in (('\\gcd(12,\\gcd(18,27))', 'Integer(3)'), ('\\gcd(\\gcd(4,6),8)', 'Integer(2)'), ('\\gcd(\\max(4,2),6)', 'Integer(2)'), ('\\gcd(\\lcm(4,6),\\lcm(2,9),30)', 'Integer(6)'), ('\\lcm(2+2,6)', 'Integer(12)'), ('\\gcd(3!,4)', 'Integer(2)'), ('\\gcd(2x,4x)', '2*x'), ('f(x,)', "Fn('f')(x)"), ('f(\\max(x,y),g(x,h(y,z)))', "Fn('f')(Max(x,y),Fn('g')(x,Fn('h')(y,z)))"), ('\\max(\\left(x+f(x,y)\\right)^2,z)', "Max((x+Fn('f')(x,y))**2,z)"), ('\\min(\\frac{x}{\\max(y,2)},z)', 'Min(x/Max(y,2),z)'), ('\\max(\\gcd(4,6),1)', 'Integer(2)'), ('\\max(\\min(x,y),3)', 'Max(Min(x,y),3)'), ('\\min(1,\\max(x,y),5)', 'Min(1,Max(x,y),5)'), ('\\lcm(4,\\lcm(6,10))', 'Integer(60)'),
                 ('f(g(x,y),z)', "Fn('f')(Fn('g')(x,y),z)"), ('\\max(f(x,y),z)', "Max(Fn('f')(x,y),z)"), ('\\max((x+y)(x-1),z)', 'Max((x+y)*(x-1),z)'), ('\\gcd(12,18)^2', 'Integer(36)'), ('\\gcd^2(12,18)', 'Integer(36)')):
        ob(t, w)
    for _ in range(N(tier, 30, 120)):
        f = rng.choice(['f', 'g', 'h', 'F', 'P'])
        (t, a), (t2, a2), (t3, a3) = rng.sample(ARGS, 3)
        ob('%s(%s, %s)' % (f, t, t2), "Fn('%s')(%s, %s)" % (f, a, a2))
        ob('%s(%s, %s, %s)' % (f, t, t2, t3), "Fn('%s')(%s, %s, %s)" % (f, a, a2, a3))
        ob('%s^2(%s, %s)' % (f, t, t2), "Fn('%s')(%s, %s)**2" % (f, a, a2))
        ob('%s^{n}(x)' % f, "Fn('%s')(x)**n" % f)
        ob('%s(x)+%s(2)' % (f, f), "Fn('%s')(x)+Fn('%s')(2)" % (f, f))
        ob('%s_1(x)' % f, "Fn('%s_1')(x)" % f)
        ob('\\%s(x)' % rng.choice(['phi', 'psi']), None) if False else None
    BODY = [('k', 'k'), ('k^2', 'k**2'), ('\\frac{1}{k}', '1/k'), ('k x', 'k*x'), ('2k', '2*k'), ('x^k', 'x**k'), ('(k+1)', '(k+1)'), ('k \\cdot x', 'k*x'), ('k(k+1)' if False else '(k+1)k', '(k+1)*k')]
    for t, b in BODY:
        for lo, lw in (('1', '1'), ('0', '0'), ('m', 'm'), ('-2', '-2'), ('m+1', 'm+1'), ('n', 'n'), ('5', '5'), ('12', '12'), ('-\\infty', '-oo')):
            for hi, hw in (('n', 'n'), ('5', '5'), ('\\infty', 'oo'), ('n+1', 'n+1'), ('10', '10'), ('0', '0'), ('1', '1'), ('-3', '-3'), ('m', 'm')):
                if rng.random() < N(tier, .25, 1):
                    u = '^{%s}' % hi if len(hi) > 1 or t[0].isdigit() or rng.random() < .5 else '^' + hi
                    s = '_{k=%s}' % lo
                    ud = s + u if rng.random() < .7 else u + s
                    ob('\\sum%s %s' % (ud, t), 'Sum(%s, (k, %s, %s))' % (b, lw, hw))
                    ob('\\prod%s %s' % (ud, t), 'Product(%s, (k, %s, %s))' % (b, lw, hw))
    for w in ('\\sum', '\\prod'):
        for t, b in (('2', '2'), ('x', 'x'), ('\\frac{1}{2}', 'S(1)/2'), ('m', 'm'), ('(x+1)', '(x+1)')):
            ob('%s_{k=1}^{n} %s' % (w, t), '%s(%s, (k, 1, n))' % ('Sum' if w == '\\sum' else 'Product', b))
            ob('%s_{k=0}^{3} %s' % (w, t), '%s(%s, (k, 0, 3))' % ('Sum' if w == '\\sum' else 'Product', b))
    for v in ('\\theta', '\\alpha', '\\delta', '\\lambda', 'h', 'n'):
        for q in '-+':
            ob('\\lim_{%s \\to 0^{%s}} %s x' % (v, q, v), "Limit(Sy('%s')*x, Sy('%s'), 0, '%s')" % (v.strip('\\'), v.strip('\\'), q))
            ob('\\lim_{%s \\to a^{%s}} \\frac{1}{%s}' % (v, q, v), "Limit(1/Sy('%s'), Sy('%s'), a, '%s')" % (v.strip('\\'), v.strip('\\'), q))
    for d in range(10):
        ob('\\sqrt%d' % d, 'sqrt(%d)' % d)
        ob('\\sqrt[3]%d' % d, 'S(%d)**(S(1)/3)' % d)
        ob('e^%d' % d, 'exp(%d)' % d)
    for t, b in (('-1', '-1'), ('-2', '-2'), ('x', 'x'), ('-x', '-x'), ('\\frac{1}{2}', 'S(1)/2'), ('0', '0'), ('10', '10')):
        ob('e^{%s}' % t, 'exp(%s)' % b)
        if t == '0':
            continue
        ob('f^{%s}(x)' % t, "Fn('f')(x)**(%s)" % b)
        ob('f^{%s}(x, y)' % t, "Fn('f')(x, y)**(%s)" % b)
        ob('2 g^{%s}(y)' % t, "2*Fn('g')(y)**(%s)" % b)
    for t, b, v in (('\\frac{\\frac{d(x^2)}{dx} dy}{y}', 'Derivative(x**2, x)/y', 'y'), ('\\frac{\\frac{d(y)}{dy} dx}{x}', 'Derivative(y, y)/x', 'x')):
        ob('\\int ' + t, 'Integral(%s, %s)' % (b, v))
        ob('\\int_0^a ' + t, 'Integral(%s, (%s, 0, a))' % (b, v))
    ob('\\sum_{k=1}^{n} k+1', 'Sum(k,(k,1,n))+1')
    ob('3\\sum_{k=1}^{n} k', '3*Sum(k,(k,1,n))')
    ob('\\sum_{i=1}^{3}\\sum_{j=1}^{4} i j', "Sum(Sum(Sy('i')*j,(j,1,4)),(Sy('i'),1,3))")
    ob('\\sum_{a=b}^{c} a b', 'Sum(a*b,(a,b,c))')
    LB = [('\\frac{\\sin(x)}{x}', 'sin(x)/x'), ('x^2', 'x**2'), ('\\frac{1}{x}', '1/x'), ('x y', 'x*y'), ('(x+1)', '(x+1)'), ('e^{x}', 'exp(x)')]
    for t, b in LB:
        for to in ('\\to', '\\rightarrow', '\\longrightarrow', '\\Rightarrow', '\\Longrightarrow'):
            for ap, aw in (('0', '0'), ('\\infty', 'oo'), ('a', 'a'), ('2', '2'), ('-\\infty', '-oo'), ('a+1', 'a+1')):
                if rng.random() < N(tier, .35, 1):
                    ob('\\lim_{x %s %s} %s' % (to, ap, t), "Limit(%s, x, %s, '+')" % (b, aw))
        for ap in ('0', 'a', '3'):
            ob('\\lim_{x \\to %s^{-}} %s' % (ap, t), "Limit(%s, x, %s, '-')" % (b, ap))
            ob('\\lim_{x \\to %s^{+}} %s' % (ap, t), "Limit(%s, x, %s, '+')" % (b, ap))
    ob('\\lim_{\\theta \\to 0} \\theta', "Limit(Sy('theta'), Sy('theta'), 0, '+')")
    ob('\\lim_{y \\to x} (x+y)', "Limit(x+y, y, x, '+')")
    ob('\\lim_{h \\to 0} x h + 1', "Limit(x*h, h, 0, '+')+1")
    IB = [('x', 'x'), ('x^2', 'x**2'), ('\\sin(x)', 'sin(x)'), ('x+1', 'x+1'), ('x y', 'x*y'), ('\\frac{1}{x}', '1/x'), ('e^{x}', 'exp(x)'), ('2x-3', '2*x-3'), ('x \\cos(x)', 'x*cos(x)'), ('(x+y)^2', '(x+y)**2'), ('3', '3')]
    for t, b in IB:
        for v in ('x', 'y', 't'):
            ob('\\int %s d%s' % (t, v), 'Integral(%s, %s)' % (b, v))
            ob('\\int %s \\, d%s' % (t, v), 'Integral(%s, %s)' % (b, v))
            ob('\\int %s \\mathrm{d}%s' % (t, v), 'Integral(%s, %s)' % (b, v))
            for lo, hi in (('0', '1'), ('a', 'b'), ('-1', '2'), ('0', '\\infty'), ('a+1', '2b'), ('x', '3'), ('y^2', '1'), ('3', '1'), ('b', 'a'), ('1', '1'), ('\\infty', '0'), ('1', '-1'), ('-1', '-2'), ('t', 't'), ('-\\infty', '\\infty'), ('0.5', '0.25'), ('\\pi', '0')):
                if rng.random() < N(tier, .4, 1):
                    g = lambda q, c: c + (q if len(q) == 1 and rng.random() < .5 else '{%s}' % q)
                    bd = [g(lo, '_'), g(hi, '^')]
                    if t[0].isdigit():
                        bd = ['_{%s}' % lo, '^{%s}' % hi]
                    if rng.random() < .25:
                        bd.reverse()
                    fw = lambda q: {'\\infty': 'oo', '-\\infty': '-oo', '0.5': 'S(1)/2', '0.25': 'S(1)/4', '\\pi': 'pi', '2b': '2*b', 'y^2': 'y**2'}.get(q, q)
                    ob('\\int%s %s d%s' % (''.join(bd), t, v), 'Integral(%s, (%s, %s, %s))' % (b, v, fw(lo), fw(hi)))
    for t, w in (('\\int dx', 'Integral(1, x)'), ('\\int_0^1 dx', 'Integral(1, (x, 0, 1))'), ('\\int \\frac{dx}{x}', 'Integral(1/x, x)'), ('\\int_1^2 \\frac{dy}{y}', 'Integral(1/y, (y, 1, 2))'), ('\\int_1^2 \\frac{x dy}{y}', 'Integral(x/y, (y, 1, 2))'),
                 ('\\int \\frac{\\delta dx}{x}', "Integral(Sy('delta')/x, x)"), ('\\int_1^2 \\frac{d_1 d\\theta}{\\theta}', "Integral(Sy('d_1')/Sy('theta'), (Sy('theta'), 1, 2))"), ('\\int x_{1} dx_{1}', "Integral(Sy('x_1'), Sy('x_1'))"), ('\\int_0^1 x_{12} dx_{12}', "Integral(Sy('x_{12}'), (Sy('x_{12}'), 0, 1))"), ('\\int x_1 dx_1', "Integral(Sy('x_1'), Sy('x_1'))"), ('\\int \\delta x d\\delta ', "Integral(Sy('delta')*x, Sy('delta'))"), ('\\int \\frac{d\\delta}{\\delta}', "Integral(1/Sy('delta'), Sy('delta'))"), ('\\frac{d}{dx_{1}} x_1^2', "Derivative(Sy('x_1')**2, Sy('x_1'))"), ('\\frac{d}{dx_1} (x_{1}+y)', "Derivative(Sy('x_1')+y, Sy('x_1'))"), ('\\int x d\\theta', "Integral(x, Sy('theta'))"), ('\\int_a^b x^2 dx + 1', 'Integral(x**2,(x,a,b))+1'), ('2\\int_0^1 x dx', '2*Integral(x,(x,0,1))'), ('\\int \\frac{2 dt}{t+1}', 'Integral(2/(t+1), t)'),
                 ('\\int_0^1 \\int_0^2 x y dx dy', 'Integral(x*y,(x,0,2),(y,0,1))'), ('\\int \\int x y dx dy', 'Integral(x*y,x,y)'), ('\\int_a^b (\\int_0^y x y dx) dy', 'Integral(x*y,(x,0,y),(y,a,b))'), ('\\int_0^1 x dx', 'Integral(x,(x,0,1))')):
        ob(t, w)
    DB = [('x^2', 'x**2'), ('\\sin(x)', 'sin(x)'), ('(x+y)', '(x+y)'), ('x y', 'x*y'), ('e^{x}', 'exp(x)'), ('\\frac{1}{x}', '1/x'), ('\\ln(x)', 'log(x)')]
    for t, b in DB:
        for v in ('x', 'y', 't'):
            ob('\\frac{d}{d%s} %s' % (v, t), 'Derivative(%s, %s)' % (b, v))
            ob('\\frac{\\partial}{\\partial %s} %s' % (v, t), 'Derivative(%s, %s)' % (b, v))
            ob('\\frac{d(%s)}{d%s}' % (t, v), 'Derivative(%s, %s)' % (b, v))
            ob('\\frac{\\partial(%s)}{\\partial %s}' % (t, v), 'Derivative(%s, %s)' % (b, v))
            ob('\\frac{\\mathrm{d}}{\\mathrm{d}%s} %s' % (v, t), 'Derivative(%s, %s)' % (b, v))
            ob('\\frac{d}{d%s} %s + 1' % (v, t), 'Derivative(%s, %s)+1' % (b, v))
            ob('3 \\frac{d}{d%s} %s' % (v, t), '3*Derivative(%s, %s)' % (b, v))
    for t, w in (('\\frac{dy}{dx}', 'Derivative(y, x)'), ('\\frac{\\partial f}{\\partial x}', 'Derivative(f, x)'), ('\\frac{d}{dx} \\frac{d}{dy} x^2 y', 'Derivative(Derivative(x**2*y, y), x)'), ('\\frac{d\\theta}{dt}', "Derivative(Sy('theta'), t)"),
                 ('\\frac{d}{d\\theta} \\theta^2', "Derivative(Sy('theta')**2, Sy('theta'))"), ('\\frac{\\partial}{\\partial \\alpha} (x \\alpha)', "Derivative(x*Sy('alpha'), Sy('alpha'))"), ('\\frac{d x^2}{dx}', 'Derivative(x**2, x)'), ('\\frac{d(0)}{dx}', 'Derivative(Integer(0), x)'), ('\\frac{\\partial 0}{\\partial x}', 'Derivative(Integer(0), x)'), ('\\frac{d(x-x)}{dx}', 'Derivative(Integer(0), x)'), ('\\frac{d}{dx} 0', 'Derivative(Integer(0), x)'),
                 ('(x^2+1)|_{x=3}', 'Integer(10)'), ('(x y)|_{x=2}', '2*y'), ('x^2|_{x=1}^{x=3}' if False else '(x^2)|_{x=1}', 'Integer(1)'), ('(x^2)|^{x=3}_{x=1}', 'Integer(8)'), ('x!', 'factorial(x)'), ('(n-1)!', 'factorial(n-1)'), ('2n!', '2*factorial(n)'),
                 ('\\binom{n}{k}', 'binomial(n,k)'), ('\\binom{n+1}{2}', 'binomial(n+1,2)'), ('{n \\choose k+1}', 'binomial(n,k+1)'), ('\\lfloor x \\rfloor + \\lceil y \\rceil', 'floor(x)+ceiling(y)'), ('x \\mod y', 'Mod(x,y)')):
        ob(t, w)
    rng.shuffle(cs)
    return cs


# ------------------------------------------------------------------ P20
def mtex(M, env='bmatrix'):
    return '\\begin{%s}%s\\end{%s}' % (env, '\\\\'.join('&'.join(str(x) for x in r) for r in M), env)


def mw(M):
    return 'M(%s)' % ','.join('[%s]' % ','.join('S("%s")' % x if isinstance(x, str) else 'S(%d)' % x for x in r) for r in M)


def gen_P20(rng, tier):
    cs = []
    ob = lambda t, w: cs.append(['object', dict(tex=t, want=w)])

    def rm(r, c, sym=False):
        return [[(rng.choice(['x', 'y', 'x+1']) if sym and rng.random() < .3 else rng.randint(-5, 9)) for _ in range(c)] for _ in range(r)]
    envs = ['bmatrix', 'pmatrix', 'matrix']
    for _ in range(N(tier, 25, 200)):
        r, c = rng.randint(1, 4), rng.randint(1, 4)
        A, B = rm(r, c, True), rm(r, c, True)
        e = rng.choice(envs)
        ta, tb = mtex(A, e), mtex(B, rng.choice(envs))
        ob(ta, mw(A))
        ob('\\left[' + mtex(A, 'matrix') + '\\right]', mw(A))
        ob(ta + '+' + tb, mw(A) + '+' + mw(B))
        ob(ta + '-' + tb, mw(A) + '-' + mw(B))
        ob(ta + '-' + tb + '-' + ta, mw(A) + '-' + mw(B) + '-' + mw(A))
        ob(ta + '-' + tb + '+' + ta, mw(A) + '-' + mw(B) + '+' + mw(A))
        ob('3' + ta, '3*' + mw(A))
        ob(ta + '\\cdot 3', '3*' + mw(A))
        ob('-' + ta, '-' + mw(A))
        ob('\\frac{1}{2}' + ta, 'Rational(1,2)*' + mw(A))
        ob('x' + ' \\cdot ' + ta + '+' + tb, 'x*' + mw(A) + '+' + mw(B))
        ob('2' + ta + '-3' + tb, '2*' + mw(A) + '-3*' + mw(B))
        ob(ta + rng.choice(['^T', '^{T}', "'", '^\\top', '^{\\mathrm{T}}' if False else '^T']), mw(A) + '.T')
        ob(ta + '^T+' + mtex([list(q) for q in zip(*B)], e), mw(A) + '.T+' + mw(B) + '.T')
        k = rng.randint(1, 4)
        C = rm(c, k)
        tc = mtex(C, e)
        for op in ('', '\\cdot ', '\\times ', '*'):
            ob(ta + op + tc, mw(A) + '*' + mw(C))
        D = rm(k, 2)
        ob(ta + tc + mtex(D), mw(A) + '*' + mw(C) + '*' + mw(D))
        ob(ta + '\\cdot ' + tc + '\\cdot ' + mtex(D), mw(A) + '*' + mw(C) + '*' + mw(D))
        ob(ta + '(' + tc + '+' + tc + ')', mw(A) + '*(' + mw(C) + '+' + mw(C) + ')')
        ob(ta + '/2' if False else ta + '\\cdot\\frac12', mw(A) + '/2')
    for _ in range(N(tier, 25, 150)):
        n = rng.randint(1, 3)
        A, B = rm(n, n), rm(n, n)
        e = rng.choice(envs)
        ta, tb = mtex(A, e), mtex(B, e)
        ob('\\begin{vmatrix}%s\\end{vmatrix}' % mtex(A)[len('\\begin{bmatrix}'):-len('\\end{bmatrix}')], mw(A) + '.det()')
        ob('\\det(' + ta + ')', mw(A) + '.det()')
        ob('\\det ' + ta, mw(A) + '.det()')
        ob('2\\det(' + ta + ')+1', '2*' + mw(A) + '.det()+1')
        ob(ta + '^2', mw(A) + '**2')
        ob(ta + '^{3}', mw(A) + '**3')
        ob(ta + tb + '-' + tb + ta, mw(A) + '*' + mw(B) + '-' + mw(B) + '*' + mw(A))
        ob('\\operatorname{trace}(' + ta + ')', mw(A) + '.trace()')
        ob('\\operatorname{tr}(' + ta + ')', mw(A) + '.trace()')
        import itertools
        def det(Q):
            m = len(Q)
            s = 0
            for p in itertools.permutations(range(m)):
                sg = 1
                for i in range(m):
                    for j in range(i):
                        if p[j] > p[i]:
                            sg = -sg
                t = sg
                for i in range(m):
                    t *= Q[i][p[i]]
                s += t
            return s
        if det(B) != 0:
            ob(tb + '^{-1}', mw(B) + '**-1')
            ob(ta + tb + '^{-1}', mw(A) + '*' + mw(B) + '**-1')
            ob(ta + '/' + tb, mw(A) + '*' + mw(B) + '**-1')
            ob('\\frac{' + ta + '}{' + tb + '}', mw(A) + '*' + mw(B) + '**-1')
            ob(ta + '\\div ' + tb, mw(A) + '*' + mw(B) + '**-1')
    for _ in range(N(tier, 12, 80)):
        n = rng.randint(2, 3)
        A, B = rm(n, n), rm(n, n)
        e = rng.choice(envs)
        ta, tb = mtex(A, e), mtex(B, e)
        X = [(ta + '+' + tb, '(%s+%s)' % (mw(A), mw(B))), (ta + '-' + tb, '(%s-%s)' % (mw(A), mw(B))), (ta + tb, '(%s*%s)' % (mw(A), mw(B))), ('2' + ta, '(2*%s)' % mw(A)), ('-' + ta, '(-%s)' % mw(A)),
             (ta + '^2', '(%s**2)' % mw(A)), (ta + '-2' + tb, '(%s-2*%s)' % (mw(A), mw(B))), ('x' + ta + '\\cdot ' + tb, '(x*%s*%s)' % (mw(A), mw(B))), ('3' + ta + '-' + tb + ta, '(3*%s-%s*%s)' % (mw(A), mw(B), mw(A)))]
        for t, w in rng.sample(X, 5):
            ob('\\det(' + t + ')', w + '.det()')
            ob('\\operatorname{trace}(' + t + ')', w + '.trace()')
            ob('(' + t + ')^T', w + '.T')
            ob('(' + t + ')' + tb, w + '*' + mw(B))
            ob('(' + t + ')^2', w + '**2')
            ob('(' + t + ')/2', w + '/2')
            ob('\\frac{' + t + '}{3}', w + '/3')
            ob(tb + '-(' + t + ')', mw(B) + '-' + w)
            ob('\\operatorname{hstack}(' + t + ',' + ta + ')', 'Matrix.hstack(%s,%s)' % (w, mw(A)))
            ob('\\operatorname{vstack}(' + ta + ',' + t + ')', 'Matrix.vstack(%s,%s)' % (mw(A), w))
            if 'x' not in t and 'y' not in t:
                ob('\\operatorname{rank}(' + t + ')', 'Integer(%s.rank())' % w)
                ob('\\operatorname{rref}(' + t + ')', w + '.rref()[0]')
                ob('\\operatorname{rows}(' + t + ')', '[%s.row(i) for i in range(%d)]' % (w, n))
        ob('\\| ' + mtex([[q] for q in A[0]]) + '+' + mtex([[q] for q in B[0]]) + ' \\|', '(%s+%s).norm()' % (mw([[q] for q in A[0]]), mw([[q] for q in B[0]])))
    for _ in range(N(tier, 20, 120)):
        r, c = rng.randint(2, 3), rng.randint(2, 4)
        A = rm(r, c)
        ta = mtex(A, rng.choice(envs))
        ob('\\operatorname{rank}(' + ta + ')', 'Integer(%s.rank())' % mw(A))
        ob('\\operatorname{rref}(' + ta + ')', '%s.rref()[0]' % mw(A))
        ob('\\operatorname{nullspace}(' + ta + ')', '%s.nullspace()' % mw(A))
        ob('\\operatorname{cols}(' + ta + ')', '[%s]' % ','.join(mw([[q[j]] for q in A]) for j in range(c)))
        ob('\\operatorname{rows}(' + ta + ')', '[%s]' % ','.join(mw([q]) for q in A))
        ob('\\| ' + mtex([[q] for q in A[0]]) + ' \\|', mw([[q] for q in A[0]]) + '.norm()')
        ob('\\operatorname{norm}(' + mtex([A[0]]) + ')', mw([A[0]]) + '.norm()')
        B = rm(r, c)
        tb = mtex(B)
        ob('\\operatorname{hstack}(%s, %s)' % (ta, tb), 'Matrix.hstack(%s,%s)' % (mw(A), mw(B)))
        ob('\\operatorname{vstack}(%s, %s)' % (ta, tb), 'Matrix.vstack(%s,%s)' % (mw(A), mw(B)))
        ob('\\operatorname{diag}(%d, %d, %d)' % tuple(A[0][:2] + [7]), 'diag(%d,%d,%d)' % tuple(A[0][:2] + [7]))
        n = rng.randint(1, 4)
        ob('\\operatorname{eye}(%d)' % n, 'eye(%d)' % n)
        ob('\\operatorname{zeros}(%d)' % n, 'zeros(%d)' % n)
        ob('\\operatorname{zeros}(%d, %d)' % (n, c), 'zeros(%d,%d)' % (n, c))
        ob('\\operatorname{ones}(%d, %d)' % (n, c), 'ones(%d,%d)' % (n, c))
    for A in ([[2, 0], [0, 3]], [[1, 2], [2, 1]], [[4, 1], [2, 3]], [[5, 0, 0], [0, 2, 0], [1, 0, 2]]):
        t = mtex(A)
        for nm in ('eigenvals', 'eigenvalues'):
            ob('\\operatorname{%s}(%s)' % (nm, t), mw(A) + '.eigenvals()')
        for nm in ('eigenvects', 'eigenvectors'):
            ob('\\operatorname{%s}(%s)' % (nm, t), mw(A) + '.eigenvects()')
        if len(A) == 2:
            for nm in ('diagonalize', 'eigen', 'eig'):
                ob('\\operatorname{%s}(%s)' % (nm, t), mw(A) + '.diagonalize()')
    for nm in ('orth', 'orthogonalize', 'ortho', 'orthogonal'):
        ob('\\operatorname{%s}(%s)' % (nm, mtex([[1, 2], [3, 1]])), 'list(GramSchmidt([M([1],[3]),M([2],[1])], True))' if True else '')
        ob('\\operatorname{%s}(%s, %s)' % (nm, mtex([[1], [2]]), mtex([[0], [5]])), 'list(GramSchmidt([M([1],[2]),M([0],[5])], True))')

    # elementary transformations
    def el(M, op):
        M = [list(map(Fraction, r)) for r in M]
        k, i, j, rc, what = op
        if rc == 'c':
            M = [list(q) for q in zip(*M)]
        if what == 'swap':
            M[i], M[j] = M[j], M[i]
        elif what == 'scale':
            M[i] = [k * x for x in M[i]]
        else:
            M[i] = [x + k * y for x, y in zip(M[i], M[j])]
        if rc == 'c':
            M = [list(q) for q in zip(*M)]
        return M

    def mkop(n, m):
        rc = rng.choice('rc')
        size = n if rc == 'r' else m
        w = rng.choice(['swap', 'scale', 'add']) if size > 1 else 'scale'
        i = rng.randrange(size)
        j = rng.choice([q for q in range(size) if q != i]) if size > 1 else 0
        at = lambda q: '%s_%s' % (rc, rng.choice(['%d', '{%d}']) % (q + 1))
        k = Fraction(rng.choice([2, 3, 5, -1, 7]))
        if w == 'swap':
            return (k, i, j, rc, w), at(i) + rng.choice(['<->', '<=>', '\\leftrightarrow ', '\\Leftrightarrow ']) + at(j)
        if w == 'scale':
            kt = rng.choice(['%d' % k, '(%d)' % k]) if k >= 0 else rng.choice(['-', '(-1)'])
            return (k, i, j, rc, w), kt + ' ' + at(i)
        # r_i + k r_j
        if rng.random() < .4:
            k = Fraction(rng.choice([1, -1]))
            return (k, i, j, rc, w), at(i) + ('+' if k == 1 else '-') + at(j)
        return (k, i, j, rc, w), at(i) + '(%d)' % k + at(j) if rng.random() < .6 or k < 0 else at(i) + '+%d' % k + ' ' + at(j)
    fm = lambda M: 'M(%s)' % ','.join('[%s]' % ','.join('Rational(%d,%d)' % (x.numerator, x.denominator) for x in r) for r in M)
    for _ in range(N(tier, 110, 800)):
        n, m = rng.randint(1, 3), rng.randint(2, 3)
        A = rm(n, m)
        down = [mkop(n, m) for _ in range(rng.randint(1, 3))]
        up = [mkop(n, m) for _ in range(rng.randint(1, 2))] if rng.random() < .5 else []
        # \xrightarrow[below]{above}
        s = mtex(A, rng.choice(envs)) + rng.choice(['\\xrightarrow', '\\xRightarrow'])
        if up:
            s += '[' + ', '.join(t for _, t in down) + ']{' + ', '.join(t for _, t in up) + '}'
            order = up + down
        else:
            s += '{' + ', '.join(t for _, t in down) + '}'
            order = down
        R = A
        for o, _ in order:
            R = el(R, o)
        ob(s, fm([[Fraction(x) for x in q] for q in R]))
    rng.shuffle(cs)
    return cs


# ------------------------------------------------------------------ P21
def gen_P21(rng, tier):
    cs = []
    V = {'a': [('3', 3), (3, 3), ('1/2', Fraction(1, 2)), (2.5, Fraction(5, 2)), ('7', 7)], 'b': [('4', 4), (5, 5), ('0.25', Fraction(1, 4))], 'x': [('2', 2), (9, 9)], 'speed': [('60', 60)], 'a_1': [('8', 8)], 'x_{12}': [('6', 6)],
         'AB': [('11', 11)], 'v2': [('13', 13)]}
    TPL = [('<A>', lambda v, p: v['a']), ('<A>+<B>', lambda v, p: v['a'] + v['b']), ('<A><B>', lambda v, p: v['a'] * v['b']), ('2<A>-x', lambda v, p: 2 * v['a'] - p['x']), ('\\frac{<A>}{<B>}', lambda v, p: v['a'] / v['b']),
           ('\\sqrt{<A>}', lambda v, p: float(v['a']) ** .5), ('\\sin(<A>)', lambda v, p: math.sin(v['a'])), ('<A>^2', lambda v, p: v['a'] ** 2), ('x^{<A>}', lambda v, p: float(p['x']) ** float(v['a'])), ('<A>\\%', lambda v, p: v['a'] / 100),
           ('\\frac{<A>+1}{x}', lambda v, p: (v['a'] + 1) / p['x']), ('|<A>-<B>|', lambda v, p: abs(v['a'] - v['b'])), ('\\max(<A>, <B>)', lambda v, p: max(v['a'], v['b'])), ('\\min(<A>, <B>, 100)', lambda v, p: min(v['a'], v['b'], 100)),
           ('\\ln(<A>)+<B>', lambda v, p: math.log(v['a']) + v['b']), ('e^{<A>}', lambda v, p: math.exp(v['a'])), ('\\frac{1}{<A><B>}', lambda v, p: 1 / (v['a'] * v['b'])), ('-<A>', lambda v, p: -v['a']), ('(<A>+x)(<B>-x)', lambda v, p: (v['a'] + p['x']) * (v['b'] - p['x'])),
           ('<B>\\%\\cdot <A>', lambda v, p: v['b'] * v['a'] / 100), ('\\sum_{k=1}^{3} <A> k', lambda v, p: 6 * v['a']), ('\\lfloor <A> \\rfloor', lambda v, p: math.floor(v['a'])), ('<A>/<B>/<A>', lambda v, p: 1 / v['b']),
           ('\\log_{<B>}(<A>)', lambda v, p: math.log(v['a']) / math.log(v['b'])), ('<A>\\cdot <A>\\%', lambda v, p: v['a'] ** 2 / 100)]
    for t, f in TPL:
        for _ in range(N(tier, 3, 12)):
            names = rng.sample(list(V), 2)
            if '<B>' not in t:
                names[1] = 'b' if names[0] != 'b' else 'a'
            val = {n: rng.choice(V[n]) for n in names}
            if t.startswith('\\log') and val[names[1]][1] == 1:
                continue
            tex = t.replace('<A>', '\\variable{%s}' % names[0]).replace('<B>', '\\variable{%s}' % names[1])
            v = {'a': Fraction(val[names[0]][1]), 'b': Fraction(val[names[1]][1])}
            at = []
            for k in range(2):
                p = {'x': Fraction(rng.randint(2, 9), rng.choice([1, 2, 3]))}
                at.append([{'x': str(p['x'])}, fr(f(v, p))])
            cs.append(['value', dict(tex=tex, rest=[{n: val[n][0] for n in names}], at=at)])
            cs.append(['value', dict(tex=tex, rest=[dict({n: val[n][0] for n in names}, other='99', xx=1)], at=at)])
    import hashlib
    sym = lambda n: "Sy('%s')" % (n + hashlib.md5(n.encode()).hexdigest())
    ob = lambda t, r, w: cs.append(['object', dict(tex=t, rest=r, want=w)])
    for n in list(V) + ['q', 'zeta', 'n0']:
        ob('\\variable{%s}' % n, [], sym(n))
        ob('\\variable{%s}+%s' % (n, 'x'), [{'zzz': 4}], '%s+x' % sym(n))
        ob('\\variable{%s}\\cdot\\variable{other}' % n, [{'other': '5'}], '%s*5' % sym(n))
        ob('\\variable{%s}\\%%' % n, [{}], '%s/100' % sym(n))
        ob('\\frac{\\variable{%s}}{\\variable{w}}' % n, [{n: '6'}], '6/%s' % sym('w'))
        ob('\\frac{d}{dx}\\variable{%s} x^2' % n, [{n: '6'}], 'Derivative(6*x**2, x)')
        ob('\\frac{d(\\variable{%s} x^2)}{dx}' % n, [{n: '6'}], 'Derivative(6*x**2, x)')
        ob('\\frac{\\partial(\\variable{%s} x^2)}{\\partial x}+\\variable{%s}' % (n, n), [{n: '6'}], 'Derivative(6*x**2, x)+6')
        ob('\\int \\variable{%s} x dx' % n, [{n: '6'}], 'Integral(6*x, x)')
        ob('\\int_{0}^{\\variable{%s}} x dx' % n, [{n: 6}], 'Integral(x, (x, 0, 6))')
        ob('\\begin{bmatrix}\\variable{%s} & 1\\\\ 2 & \\variable{%s}\\end{bmatrix}' % (n, n), [{n: '6'}], 'M([6,1],[2,6])')
        ob('f(\\variable{%s}, x)' % n, [{n: '6'}], "Fn('f')(6, x)")
        ob('\\gcd(\\variable{%s}, 4)' % n, [{n: '6'}], 'Integer(2)')
        ob('\\lim_{x \\to \\variable{%s}} x' % n, [{n: '6'}], "Limit(x, x, 6, '+')")
        ob('x=\\variable{%s}' % n, [{n: '6'}], 'Eq(x, 6, evaluate=False)')
        ob('\\variable{%s}, x' % n, [{n: '6'}], '[Integer(6), x]')
    for vals, t, w in (({'a': 0}, '\\variable{a}+x', 'x'), ({'a': '0'}, '\\variable{a}', 'Integer(0)'), ({'a': 0}, '\\variable{a}\\%+x', 'x'), ({'a': 'y+1'}, '2\\variable{a}', '2*(y+1)'), ({'a': '-3'}, '5-\\variable{a}', 'Integer(8)'),
                       ({'a': -3}, '\\variable{a}^2', 'Integer(9)'), ({'a': 'b'}, '\\variable{a}+\\variable{b}', 'b+' + sym('b')), ({'aa': 1}, '\\variable{a}', sym('a')), ({'a': 2, 'b': 3, 'c': 4}, '\\variable{a}\\variable{b}+\\variable{c}', 'Integer(10)')):
        ob(t, [vals], w)
    H = [[['latex2sympy', ['\\variable{a}', {'a': '3'}]]], [['latex2sympy', ['\\variable{a}+\\variable{b}', {'a': 3, 'b': 4}]], ['latex2sympy', ['\\frac{d(\\variable{a}x)}{dx}', {'a': '3'}]]]]
    PR = [['latex2sympy', ['\\variable{a}']], ['latex2sympy', ['\\variable{b}+\\variable{a}', {'b': '7'}]], ['latex2sympy', ['\\variable{a}\\%']], ['latex2sympy', ['\\frac{d(\\variable{a}x)}{dx}', {}]], ['latex2sympy', ['\\gcd(\\variable{a},2)']]]
    for h in H:
        cs.append(['history', dict(history=h, probes=PR)])
    rng.shuffle(cs)
    return cs


GEN = {k[4:]: v for k, v in list(globals().items()) if k.startswith('gen_')}
