"""Cases of the comparison properties. Every expected verdict follows from the property statement alone."""
import itertools
from fractions import Fraction

# values in several spellings; different groups have clearly different values
POOL = [
    ['3', '3.0', '\\frac{6}{2}', '9/3'],
    ['\\frac12', '0.5', '1/2', '\\frac{1}{2}'],
    ['-7', '-7.0', '\\frac{-14}{2}'],
    ['\\sqrt{2}', '2^{1/2}', '2^{\\frac12}'],
    ['x+1', '1+x', 'x+2-1'],
    ['2x', 'x*2', 'x+x'],
    ['\\pi', '\\frac{2\\pi}{2}'],
    ['64', '8^2', '64.0'],
    ['0', '0.0', '5-5'],
    ['y^2', 'y*y'],
    ['\\frac{5}{3}', '5/3', '\\frac{10}{6}'],
    ['-0.25', '-\\frac14', '-1/4'],
]
NUMS = [0, 1, 2, 3, 6, 7, 8, 10, 11]                  # groups that are real numbers
RANK = {2: -7, 11: -.25, 8: 0, 1: .5, 3: 1.414, 10: 5 / 3, 0: 3, 6: 3.14159, 7: 64}


def eq(a, b, expect, why='', fn='is_equiv', rest=None):
    d = dict(fn=fn, a=a, b=b, expect=bool(expect), why=why)
    if rest:
        d['rest'] = list(rest)
    return ['eq', d]


def spell(rng, g, avoid=None):
    return rng.choice(POOL[g])


def N(tier, q, t):
    return t if tier == 'thorough' else q


# ------------------------------------------------------------------ P01
FRAGS = ['\\frac', '{', '}', '(', ')', '[', ']', '1', '2', 'x', 'y', '+', '-', '*', '/', '=', '<', '\\le', '^', '_', ',', '\\sqrt', '\\pi', '\\text{cm}', '%',
         '\\%', '$', ' ', '\\circ', '^\\circ', '\\begin{matrix}', '\\end{matrix}', '&', '\\\\', '\\cup', '\\cap', 'i', 'I', '\\infty', '∞', '∪', '⋃', '|', '!',
         '\\sin', '\\log_', '\\int', '\\sum', '\\lim', '3.5', '0', '0.0', '1e5', '10^6', 'pm', ':', '8:30', '_2', '\\{', '\\}', '\\left(', '\\right)',
         'and', 'or', 'None', 'True', 'nan', 'inf', '\x00', '\t', '\n', "'", '"', '.', '..', ';', '\\', '\\in', '\\mathbb{R}', 'million', '1,000',
         'é', '√', '×', '{1,2}', '[1,2)', '\\emptyset', '\\ne', '\\operatorname{rank}', '\\det', '\\variable{a}', '\\frac{d}{dx}', 'lambda', 'f(x)', '#', '@']
SEEDS = ['', ' ', '$', '\\', '{', '}', '(', ')', '[', ']', '()', '[]', '{}', '(,)', ',', ',,', '\\frac', '\\frac12', '\\frac{1}{0}', '1/0', '0/0', 'x/0',
         '\\sqrt{-1}', '\\sqrt{}', '1_2', '12_1', '19_0', '1_{10}', '%', '5%%', '\\%', '5\\%', 'nan', 'NaN', 'inf', '-inf', 'infinity', '1e400', '1e-400', '-1e309',
         '(1,2', '1,2)', '[1,2)', '(2,1)', '(1,1)', '[1,1]', '(a,b)', '\\emptyset', '\\begin{matrix}', '\\begin{pmatrix}1&2\\\\3\\end{pmatrix}',
         '\\begin{pmatrix}1&2\\\\3&4\\end{pmatrix}', '\\begin{pmatrix}\\end{pmatrix}', '[[1,2],[3]]', '[[1,2],[3,4]]', '[[]]', 'x=', '=x', 'x==1', 'x=1=2', '1<2<3',
         'x<', 'x\\le 1', 'x \\ne 1', '1=1', '1=2', '2<1', 'f(x)=x', 'f(x)=', 'i', 'I', '1+i', '2i', '30^\\circ', '^\\circ', 'x^\\circ', '8:30 pm', '25:99', '8:30:61 am',
         '3 1/2', '-3 1/2', '\\text{}', '\\text{yes}', '\\text{cm}', '\\mbox{a}', '\\{x|x>1\\}', '\\{|\\}', 'x \\in (1,2)', '(-\\infty,1)\\cup(2,3)', '\\cup', '(1,2)\\cup',
         '(1,2)\\cap(3,4)', 'True', 'False', 'None', 'lambda', 'lambda x: x', 'print', '__import__', 'S', 'N', 'E', 'Q', 'oo', 'zoo', 'import', 'a.b', 'x.y', '1.2.3',
         '\\int x dx', '\\int', '\\sum_{i=1}^{3} i', '\\lim_{x \\to 0} x', '\\frac{d}{dx}x', '\\frac{d}{dx}', 'd', 'x!', '(-1)!', '|x|', '||x||', '|', '\\log_0 1',
         '\\log 0', '\\ln(-1)', '[x, y]', '{x, y}', 'x, y', 'x; y', 'A \\in R^{2*3}', '\\begin{vmatrix}1&2\\\\3&4\\end{vmatrix}', 'million', '1 million', '1,234,567',
         '1,2345', '1, 2', 'a\tb', '\x0crac{1}{2}', '\x08inom{5}{2}', '٣', '½', '²', 'x²', '∞', '(−1,2)', '"', "'", "'''", '#', '1#2', 'x:=1', '[i for i in y]',
         '1 if x else 2', '\\variable{x}', '\\begin{cases}x\\\\y\\end{cases}', '\\begin{array}{cc}1&2\\end{array}', '\\operatorname{rank}(x)', '\\det(x)', 'e', 'e^x', 'x^{y',
         '\\mathrm{T}', "x'", 'x^T', '\\vec{v}', '{', '{{}}', '([)]', '((1,2),3)', '(((((((1)))))))', '-', '--1', '+', '+-1', '*', '1**2', '~', '~1', 'not x', 'x and y', 'x or y']
TYPES = [None, '', 'Complex', 'Set', 'Vector', 'Function', 'Real', 'Interval(s)', 'Matrix', 'Expression', 'Equation', 'Inequality', 'Others', 'Set, Vector', 'complex', '*(', 'Real, Complex']


def gen_P01(rng, tier):
    cs = []
    for t in TYPES:
        for a, b in ((None, None), (None, '1'), ('1', None), ('x', 'x'), ('', None), (None, ''), ('', ''), ('50\\%', '1/2'), ('30^\\circ', '30^\\circ '), ('50\\%', '30^\\circ')):
            cs.append(['total', dict(fn='is_equiv_type', a=a, b=b, rest=[] if t is None else [t])])
            if t is None:
                cs.append(['total', dict(a=a, b=b)])
    for s in SEEDS:
        o = rng.choice(SEEDS)
        cs.append(['total', dict(a=s, b=o)])
        cs.append(['total', dict(a=o, b=s)])
        t = rng.choice(TYPES[1:])
        cs.append(['total', dict(fn='is_equiv_type', a=s, b=rng.choice(SEEDS), rest=[t])])
        cs.append(['total', dict(fn='is_equiv_type', a=rng.choice(SEEDS), b=s, rest=[rng.choice(TYPES[2:6])])])
        cs.append(['total', dict(fn='are_equal_under_sympy', a=s, b=rng.choice(SEEDS))])
        cs.append(['total', dict(fn='are_equal_under_sympy', a=rng.choice(SEEDS), b=s)])
        cs.append(['total', dict(fn='are_equal_under_sympy', a=s, b='1')])
        cs.append(['total', dict(a='x+1', b=s)])
        cs.append(['total', dict(a=s, b='2', rest=[True])])
    for _ in range(N(tier, 250, 4000)):
        a, b = (''.join(rng.choice(FRAGS) for _ in range(rng.randint(1, 7))) for _ in range(2))
        if rng.random() < .3:
            b = rng.choice(SEEDS)
        k = rng.random()
        if any(bad in a + b for bad in ('**', '^10^', '!!', 'e5e', '^^')) or a.count('^') + b.count('^') > 2:
            continue
        if k < .5:
            cs.append(['total', dict(a=a, b=b)])
        elif k < .8:
            cs.append(['total', dict(fn='is_equiv_type', a=a, b=b, rest=[rng.choice(TYPES[1:])])])
        else:
            cs.append(['total', dict(fn='are_equal_under_sympy', a=a, b=b)])
    pairs = [('x^2+2x+1', '(x+1)^2'), ('1/2', '0.5'), ('\\sqrt{2}', '2^{1/2}'), ('2x', 'x+x+0'), ('1+2i', '2i+1'), ('(1,2)', '(1,3)'), ('[1,2)', '[1,\\frac42)'),
             ('x<1', '1>x'), ('x+y=1', '1=x+y'), ('f(x)=x', 'x'), ('\\begin{pmatrix}1&2\\end{pmatrix}', '[1,2]'), ('{1,2}', '{2,1}'), ('x \\ne 1', '1 \\ne x')]
    for w in ('simplify', 'expand', 'evalf', 'subs', 'latex2sympy', 'parse_latex', 'parse_expr', 'abs', 're', 'sub', 'Interval', 'free_symbols'):
        for e in ('RuntimeError', 'TypeError', 'timeout', 'RecursionError', 'AttributeError'):
            for a, b in rng.sample(pairs, N(tier, 2, 8)):
                f = rng.choice(['is_equiv', 'is_equiv', 'is_equiv_type', 'are_equal_under_sympy'])
                cs.append(['fault', dict(fn=f, a=a, b=b, where=w, exc=e, rest=[rng.choice(TYPES[2:6])] if f == 'is_equiv_type' else [])])
    rng.shuffle(cs)
    return cs


# ------------------------------------------------------------------ P02
def gen_P02(rng, tier):
    cs = []
    texts = [s for s in SEEDS if s] + [''.join(rng.choice(FRAGS) for _ in range(rng.randint(1, 8))) for _ in range(N(tier, 60, 600))]
    for s in texts:
        pad = lambda: ''.join(rng.choice([' ', '\t', '\n', '  ', '']) for _ in range(2))
        cs.append(eq(s, s, True, 'identical'))
        cs.append(eq(pad() + s, s + pad(), True, 'identical up to surrounding whitespace'))
        t = rng.choice(TYPES)
        cs.append(eq(s, pad() + s, True, 'identical', 'is_equiv_type', [t] if t is not None else []))
        if rng.random() < .3:
            cs.append(eq(s, None, False, 'missing against present'))
            cs.append(eq(None, s, False, 'missing against present'))
    for t in TYPES:
        r = [] if t is None else [t]
        cs.append(eq(None, None, True, 'both missing', 'is_equiv_type', r))
        for s in ('', ' ', '1', 'None', 'x', '\\text{none}'):
            cs.append(eq(None, s, False, 'missing against present', 'is_equiv_type', r))
            cs.append(eq(s, None, False, 'missing against present', 'is_equiv_type', r))
    cs.append(eq(None, None, True, 'both missing'))
    for s in ('', ' ', 'None', 'null', '0', 'False'):
        cs.append(eq(None, s, False, 'missing against present'))
        cs.append(eq(s, None, False, 'missing against present'))
    same = [('$5$', '5'), ('1,000', '1000'), ('X', 'x'), ('a  b', 'a b'), ('\\$7', '7'), ('(1, 2', '(1,2'), ('Foo (', 'foo('), ('\\text{yes', '\\text{ yes'), ('5 cm', '5'),
            ('5.0', '5'), ('\\left(1,2\\right]', '(1, 2]'), ('\\!\\!x', 'x'), ('x \\; y', 'x y'), ('\\text{Yes}', 'yes'), ('[[', '[ ['), ('\\foo{)', '\\foo {)'), ('1{,}000', '1000'),
            ('((Blue', '((blue'), ('@#', '@ #'), ('x=[', 'x = ['), ('\\mbox{Red}', 'red')]
    for a, b in same:
        cs.append(eq(a, b, True, 'same normalised text'))
        cs.append(eq(b, a, True, 'same normalised text'))
    empt = ['', '$', '$$', '\\,', '\\!', '   ', '\\$']
    for a in empt:
        for b in empt:
            cs.append(eq(a, b, True, 'both normalise to the empty text'))
        for b in ('0', 'x', '1', '(1,2)', '\\emptyset', '\\frac12', '{1,2}', '50\\%', '30^\\circ'):
            cs.append(eq(a, b, False, 'empty against non-empty'))
            cs.append(eq(b, a, False, 'empty against non-empty'))
    rng.shuffle(cs)
    return cs[:N(tier, 1200, 6000)]


# ------------------------------------------------------------------ P03
DIFF = [('x^2+2x+1', '(x+1)^2+1'), ('x', 'y'), ('x+1', 'x+1.5'), ('x+y', 'x'), ('3', '4'), ('0.5', '0.6'), ('\\sqrt{2}', '1.5'), ('\\pi', '3'), ('2x', '3x'), ('x^2', 'x^3'),
        ('\\sin{x}', '\\cos{x}'), ('\\frac{1}{x}', 'x'), ('1+2i', '1-2i'), ('red', 'blue'), ('x y', 'x+y'), ('10', '-10'), ('x', '-x'), ('\\sqrt{x}', 'x'), ('x-1', '1-x'),
        ('1,2', '1,3'), ('(1,2)', '(1,3)'), ('[1,2)', '[1,2]'), ('\\begin{pmatrix}1&2\\end{pmatrix}', '\\begin{pmatrix}1&3\\end{pmatrix}'), ('x<1', 'x>1'), ('x+y=1', 'x+y=2'),
        ('f(x)=x', 'f(x)=x^2'), ('a+b', 'a-b'), ('e^x', 'e^{2x}'), ('\\ln{x}', '\\ln{2x}'), ('5', 'five hundred'), ('\\frac{x}{y}', '\\frac{y}{x}'), ('x+0.5', 'x+0.7'),
        ('100', '101'), ('7', '7x'), ('x', '5'), ('(x-1)(x-2)', '(x-1)(x-3)'), ('\\sqrt{x^2+1}', 'x+1'), ('\\log_2{x}', '\\log_3{x}'), ('x!', 'x'), ('1/3', '0.3')]


def gen_P03(rng, tier):
    cs = []
    for a, b in DIFF:
        cs.append(eq(a, b, False, 'different answers'))
        cs.append(eq(b, a, False, 'different answers'))
        cs.append(eq(a, b, False, 'different answers', 'are_equal_under_sympy')) if not a.startswith(('red', '[', 'five')) and '2)' not in a else None
    cs = [c for c in cs if c]
    for w in ('simplify', 'expand', 'evalf', 'subs', 'latex2sympy', 'parse_latex', 'parse_expr', 'abs', 're', 'sub', 'Interval', 'free_symbols'):
        for e in ('RuntimeError', 'TypeError', 'timeout', 'ValueError', 'none', 'NotImplementedError'):
            if e == 'none' and w not in ('evalf', 'latex2sympy', 'parse_latex', 'parse_expr'):
                continue
            for a, b in rng.sample([q for q in DIFF if q[0] != '1,2'], N(tier, 4, 20)):
                cs.append(['fault', dict(a=a, b=b, where=w, exc=e, reject=True, fn=rng.choice(['is_equiv', 'is_equiv', 'are_equal_under_sympy']))])
    # answers that agree at about half of the sampled points (integers and fractions) but not at all of them
    part = [('x+\\lfloor \\frac{x}{6} \\rfloor', 'x'), ('x \\cdot (1+\\lfloor \\frac{x}{6} \\rfloor)', 'x+0 \\cdot x'), ('\\lceil \\frac{x}{5} \\rceil \\cdot x', 'x'),
            ('|x-5|+x-5', '2(x-5)+0'), ('|5-x|', '5-x'), ('x+|x-6|-6', '2x-12'), ('\\max(x,5)', 'x'), ('\\min(x,6)', 'x')]
    for a, b in part:
        cs.append(eq(a, b, False, 'they agree at some points only', 'are_equal_under_sympy'))
        cs.append(eq(b, a, False, 'they agree at some points only', 'are_equal_under_sympy'))
        cs.append(eq(a, b, False, 'they agree at some points only'))
    # same shape, different unknowns
    for a, b in (('x+1', 'y+1'), ('x^2', 'z^2'), ('\\sqrt{x}\\sqrt{x+1}', '\\sqrt{y}\\sqrt{y+1}'), ('x+y-y', 'z'), ('2a', '2b'), ('x+y', 'x+z'), ('x', 'x+y'), ('x y', 'x y z')):
        cs.append(eq(a, b, False, 'different unknowns', 'are_equal_under_sympy'))
        cs.append(eq(b, a, False, 'different unknowns'))
    for _ in range(N(tier, 80, 800)):
        c = [rng.randint(-5, 5) for _ in range(3)]
        d = list(c)
        d[rng.randrange(3)] += rng.choice([-2, -1, 1, 2])
        f = lambda q: '%dx^2%+dx%+d' % tuple(q) if rng.random() < .5 else '%+d%+d x%+d x^2' % (q[2], q[1], q[0])
        cs.append(eq(f(c), f(d), False, 'different polynomials'))
    # agreement by evidence is not refused either
    for a, b in (('\\sqrt{x}\\sqrt{\\frac1x}', '1+0'), ('(x+1)^2', 'x^2+2x+1'), ('\\sin^2{x}+\\cos^2{x}+y', '1+y'), ('2\\sin{x}\\cos{x}', '\\sin{2x}'), ('\\frac{x^2-1}{x-1}', 'x+1'),
                 ('\\ln{x^2 y}', '2\\ln{x}+\\ln{y}'), ('0.3333', '1/3'), ('1.4142', '\\sqrt{2}')):
        if a.startswith('\\sqrt{x}'):
            continue
        cs.append(eq(a, b, True, 'equal by expansion, difference or samples'))
    rng.shuffle(cs)
    return cs


# ------------------------------------------------------------------ P04
def gen_P04(rng, tier):
    cs = []
    both = lambda a, b, e, w='': cs.extend([eq(a, b, e, w), eq(b, a, e, w)])
    for p in [50, 25, 10, 5, 200, 150, 12.5, 75, 33] + [rng.randint(2, 99) for _ in range(N(tier, 8, 60))]:
        s = '%g\\%%' % p
        both(s, '%g' % p, True, 'reading p')
        both(s, str(Fraction(str(p)) / 100), True, 'reading p/100')
        both(s, '%r' % (p / 100), True, 'reading p/100')
        both(s, '%g' % (p * 10), False, 'neither reading')
        both(s, '%g' % (p + 1), False, 'neither reading')
        both(s, '%r' % (p / 10), False, 'neither reading')
        both(s, '%g%%' % p, True, 'same percentage')
        both(s, '%g\\%%' % (p + 2), False, 'another percentage')
        both(s, '%g\\%%' % (p * 100), True, 'a shared reading')
        both(s, '\\text{%g\\%%}' % p if False else '%g \\%%' % p, True, 'same percentage')
    for d in [30, 45, 60, 90, 120, 180, 270, 360] + [rng.randint(1, 359) for _ in range(N(tier, 5, 40))]:
        s = '%d^\\circ' % d
        both(s, '%d' % d, True, 'reading in degrees')
        f = Fraction(d, 180)
        both(s, '\\frac{%d\\pi}{%d}' % (f.numerator, f.denominator), True, 'reading in radians')
        both(s, '%d' % (d + 1), False, 'neither reading')
        both(s, '\\frac{%d\\pi}{%d}' % (f.numerator * 2, f.denominator), False, 'neither reading')
        both(s, '%d^{\\circ}' % d, True, 'same angle')
        both(s, '%d^\\circ' % (d + 5), False, 'another angle')
    for h, m in [(2, 0), (8, 30), (11, 15), (1, 5)] + [(rng.randint(1, 11), rng.randint(1, 59)) for _ in range(N(tier, 5, 40))]:
        s = '%d:%02d pm' % (h, m)
        tail = ', %d]' % m
        for hh, e in ((h, True), (h + 12, True), (h + 1, False), (h + 6, False)):
            if m:
                both(s, '[%d%s' % (hh, tail), e, '12- and 24-hour reading')
            else:
                both(s, '%d' % hh, e, '12- and 24-hour reading')
        both(s, '%d:%02d' % (h + 12, m), True, '24-hour reading')
        both(s, '%d:%02d p.m.' % (h, m), True, 'same time')
    for digits, base in [('101', 2), ('77', 8), ('210', 3), ('44', 5)] + [(''.join(rng.choice('123') for _ in range(3)), 4) for _ in range(4)]:
        v = int(digits, base)
        for sub in ('_%d' % base, '_{%d}' % base):
            both(digits + sub, digits, True, 'the digits')
            both(digits + sub, '%d' % v, True, 'the value in base b')
            both(digits + sub, '%d' % (v + 1), False, 'neither')
            both(digits + sub, '%d' % (int(digits) + 1), False, 'neither')
    # the comparison of complex answers tries every pair of readings as well
    cs += [['eq', dict(c[1], fn='is_equiv_complex', why='complex: ' + c[1]['why'])] for c in cs if rng.random() < N(tier, .25, .6)]
    for p in ('50', '25', '20'):
        f = Fraction(int(p), 100)
        for a, b, e in (('%s\\%%' % p, '%s\\%%' % p, True), ('%s\\%%' % p, str(f), True), ('%s\\%%' % p, p, True), ('%s\\%%' % p, p + '1', False)):
            for x, y in ((a, b), (b, a)):
                cs.append(eq(x, y, e, 'complex: readings', 'is_equiv_complex'))
    alts = ['3', 'x+1', '\\frac12', '(1,2)', '[5,6,7]', '\\pi', 'y^2', '50\\%']
    other = ['4', 'x+2', '\\frac13', '(1,3)', '[5,6,8]', '\\sqrt{7}', 'y^3']
    for _ in range(N(tier, 40, 200)):
        k = rng.randint(1, 4)
        refs = rng.sample(alts[:7], k)
        pos = rng.randrange(k)
        cs.append(['anyof', dict(gt=refs, b=refs[pos], expect=True, why='equal to reference %d of %d' % (pos, k))])
        o = rng.choice(other)
        cs.append(['anyof', dict(gt=refs, b=o, expect=False, why='equal to none')])
        cs.append(['anyof', dict(gt=rng.sample(other, k), b=rng.choice(alts[:7]), expect=False, why='equal to none')])
    for a in alts:
        cs.append(['anyof', dict(gt=a, b=a, expect=True, why='single reference')])
        cs.append(['anyof', dict(gt=[a], b=a, expect=True, why='single reference')])
        cs.append(['anyof', dict(gt=[], b=a, expect=False, why='no reference')])
    cs.append(['anyof', dict(gt=['3', '0.25'], b='25\\%', expect=True, why='a reading of the prediction')])
    cs.append(['anyof', dict(gt=['3', '25\\%'], b='0.25', expect=True, why='a reading of the second reference')])
    for t in ('Complex',):
        for a, b, e in (('50\\%', '0.5', True), ('50\\%', '50', True), ('50\\%', '51', False), ('60^\\circ', '\\frac{\\pi}{3}', True), ('101_2', '5', True), ('101_2', '101', True), ('101_2', '6', False)):
            cs.append(eq(a, b, e, 'typed', 'is_equiv_type', [t]))
            cs.append(eq(b, a, e, 'typed', 'is_equiv_type', [t]))
    rng.shuffle(cs)
    return cs


# ------------------------------------------------------------------ P05
def seq(rng, gs, br, sp=None):
    sep = sp or rng.choice([',', ', '])
    return br[0] + sep.join(spell(rng, g) for g in gs) + br[1]


def gen_P05(rng, tier):
    cs = []
    T, L = '()', '[]'
    for _ in range(N(tier, 170, 1500)):
        n = rng.randint(2, 6)
        gs = [rng.randrange(len(POOL)) for _ in range(n)]
        if n == 2:
            # two elements can be read as an interval too; a reversed or symbolic one cannot
            gs = [rng.choice([4, 5, 9]), rng.randrange(len(POOL))]
        br = rng.choice([T, L])
        k = rng.random()
        if k < .35:
            cs.append(eq(seq(rng, gs, br), seq(rng, gs, br), True, 'same elements in order'))
        elif k < .6:
            hs = list(gs)
            i = rng.randrange(n)
            hs[i] = rng.choice([g for g in range(len(POOL)) if g != gs[i]])
            cs.append(eq(seq(rng, gs, br), seq(rng, hs, br), False, 'element %d differs' % i))
        elif k < .75:
            hs = list(gs)
            rng.shuffle(hs)
            cs.append(eq(seq(rng, gs, br), seq(rng, hs, br), hs == gs, 'another order'))
        elif k < .9:
            m = rng.choice([n - 1, n + 1, n + 2])
            hs = (gs + [gs[-1], gs[0], 3])[:m]
            if len(hs) < 2:
                hs = gs + [3]
            cs.append(eq(seq(rng, gs, br), seq(rng, hs, br), False, 'another length'))
            cs.append(eq(seq(rng, hs, br), seq(rng, gs, br), False, 'another length'))
        else:
            if n == 2:
                gs = gs + [1]
            cs.append(eq(seq(rng, gs, T), seq(rng, gs, L), False, 'another kind'))
            cs.append(eq(seq(rng, gs, L), seq(rng, gs, T), False, 'another kind'))
    # nested
    for _ in range(N(tier, 40, 300)):
        a, b, c, d = (rng.randrange(len(POOL)) for _ in range(4))
        mk = lambda p, q, r, s: '(%s,%s,%s)' % (seq(rng, [p, q, 3], rng.choice(['()']) if False else '()'), spell(rng, r), spell(rng, s))
        cs.append(eq(mk(a, b, c, d), mk(a, b, c, d), True, 'nested'))
        if b != c:
            cs.append(eq(mk(a, b, c, d), mk(a, c, b, d), False, 'nested, swapped'))
        m2 = lambda *g: '[(%s,%s,%s),(%s,%s,%s)]' % tuple(spell(rng, x) for x in g)
        g = [rng.randrange(len(POOL)) for _ in range(6)]
        cs.append(eq(m2(*g), m2(*g), True, 'list of tuples'))
        h = list(g)
        i = rng.randrange(6)
        h[i] = (h[i] + 1) % len(POOL)
        cs.append(eq(m2(*g), m2(*h), False, 'list of tuples, one differs'))
        if g[:3] != g[3:]:
            cs.append(eq(m2(*g), m2(*(g[3:] + g[:3])), False, 'list of tuples, swapped'))
    for a, b, e in (('(1,1,2)', '(1,2,2)', False), ('(1,2,1)', '(1,2,1)', True), ('(1,2,3)', '(1,2,3,4)', False), ('(1,2,3,4)', '(1,2,3)', False), ('(3,3,3)', '(3,3)', False),
                    ('(x,y,z)', '(z,y,x)', False), ('(1,234,5)', '(1234, 5)', True), ('(1,234, 5, 6)', '(1234,5,6)', True), ('[1,2,3]', '[1,2,3]', True), ('[3,2,1]', '[1,2,3]', False),
                    ('\\left(3,2,1\\right)', '(3,2,1)', True), ('(a,b,c)', '(a,b,d)', False), ('(2,1)', '(1,2)', False), ('(5,1)', '(5,1)', True), ('(5,1)', '(5.0,1)', True),
                    ('(5,1)', '(5,2)', False), ('(5,1,2)', '5', False), ('5', '(5,5,5)', False)):
        cs.append(eq(a, b, e))
    rng.shuffle(cs)
    return cs


# ------------------------------------------------------------------ P06
def gen_P06(rng, tier):
    cs = []
    forms = ['%s', '\\{%s\\}', '{%s}']
    forms = ['%s', '\\{%s\\}']
    forms = ['%s', '{%s}']

    def st(gs, form=None):
        gs = list(gs)
        rng.shuffle(gs)
        return (form or rng.choice(forms)) % rng.choice([', ', ',']).join(spell(rng, g) for g in gs)
    safe = [g for g in range(len(POOL))]
    for _ in range(N(tier, 90, 900)):
        n = rng.randint(2, 5)
        gs = rng.sample(safe, n)
        f = rng.choice(forms)
        k = rng.random()
        if k < .4:
            cs.append(eq(st(gs, f), st(gs, f), True, 'same elements in another order'))
        elif k < .7:
            hs = list(gs)
            hs[rng.randrange(n)] = rng.choice([g for g in safe if g not in gs])
            cs.append(eq(st(gs, f), st(hs, f), False, 'one element differs'))
        else:
            hs = gs[:-1] if n > 2 else gs + [rng.choice([g for g in safe if g not in gs])]
            cs.append(eq(st(gs, f), st(hs, f), False, 'another number of elements'))
            cs.append(eq(st(hs, f), st(gs, f), False, 'another number of elements'))
    # chains within the tolerance: only one pairing is perfect
    for _ in range(N(tier, 60, 500)):
        base = rng.randint(2, 40)
        n = rng.randint(2, 5)
        step = Fraction(4, 1000)
        gt = [base + step * i for i in range(n)]
        gv = [base + step * (i + 1) for i in range(n)]
        tx = lambda q: '%.3f' % float(q)
        far = [base + step * (i + 1) for i in range(n - 1)] + [base + step * (n + 1)]
        for other, e, w in ((gv, True, 'one perfect pairing exists'), (far, False, 'no perfect pairing')):
            a, b = [tx(q) for q in gt], [tx(q) for q in other]
            if len(set(a)) < n or len(set(b)) < n or any(x.endswith('.000') for x in a + b) and False:
                continue
            rng.shuffle(a)
            rng.shuffle(b)
            f = rng.choice(forms)
            cs.append(eq(f % ','.join(a), f % ','.join(b), e, w))
    # overlap without a pairing: two elements compete for one partner
    for _ in range(N(tier, 30, 200)):
        b0 = rng.randint(3, 30)
        a = ['%.3f' % (b0 + .001), '%.3f' % (b0 + .003), '%d' % (b0 + 5)]
        b = ['%.3f' % (b0 + .002), '%d' % (b0 + 5), '%d' % (b0 + 9)]
        c = ['%.3f' % (b0 + .002), '%d' % (b0 + 5), '%.3f' % (b0 + .004)]
        rng.shuffle(a), rng.shuffle(b), rng.shuffle(c)
        cs.append(eq(', '.join(a), ', '.join(b), False, 'two elements compete for one partner'))
        cs.append(eq(', '.join(b), ', '.join(a), False, 'two elements compete for one partner'))
        cs.append(eq(', '.join(a), ', '.join(c), True, 'a pairing exists'))
        cs.append(eq('{' + ', '.join(c) + '}', '{' + ', '.join(a) + '}', True, 'a pairing exists'))
    for a, b, e in (('1, 1, 2', '1, 2', True), ('1,2,2', '1,1,2', True), ('{1,2}', '{2,1}', True), ('x=1, x=2', 'x=2, x=1', True), ('x=1 \\text{ or } x=2', 'x=2,x=1', True),
                    ('1 and 2', '2 and 1', True), ('(1,2,5), (3,4,5)', '(3,4,5), (1,2,5)', True), ('(1,2,5), (3,4,5)', '(3,4,5), (1,2,6)', False), ('2, 3', '2, 3, 4', False),
                    ('(3,1), (5,2)', '(5,2),(3,1)', True), ('\\sqrt{2}, -\\sqrt{2}', '-\\sqrt{2}, \\sqrt{2}', True), ('\\sqrt{2}, -\\sqrt{2}', '\\sqrt{2}, \\sqrt{3}', False),
                    ('a, b, c', 'c, a, b', True), ('a, b, c', 'a, b, d', False), ('1,2,3', '(1,2,3)', False), ('1,2,3', '[1,2,3]', False), ('{1,2,3}', '1,2,3', True)):
        cs.append(eq(a, b, e))
    for a, b, e in (('{x, x - 1}', '{x - 1, x}', True), ('{x, x + 1}', '{x, x + 2}', False), ('{x, y, z}', '{z, x, y}', True), ('{1, 2, 3}', '{1, 2}', False), ('{1, 2}', '{1, 2, 3}', False)):
        cs.append(eq(a, b, e, 'parsed sets', 'are_equal_under_sympy'))
    rng.shuffle(cs)
    return cs


# ------------------------------------------------------------------ P07
def mat(rng, rows, env=None, pool=True):
    env = env or rng.choice(['pmatrix', 'bmatrix', 'matrix', 'pmatrix', 'Bmatrix'])
    cell = lambda g: spell(rng, g) if pool else g
    return '\\begin{%s} %s \\end{%s}' % (env, ' \\\\ '.join(' & '.join(cell(g) for g in r) for r in rows), env)


def gen_P07(rng, tier):
    cs = []
    for _ in range(N(tier, 110, 1000)):
        r, c = rng.choice([(2, 2), (2, 3), (3, 2), (3, 3), (1, 3), (3, 1), (1, 2), (2, 1)])
        M = [[rng.randrange(len(POOL)) for _ in range(c)] for _ in range(r)]
        k = rng.random()
        if k < .4:
            cs.append(eq(mat(rng, M), mat(rng, M), True, 'same entries'))
        elif k < .7:
            X = [list(x) for x in M]
            i, j = rng.randrange(r), rng.randrange(c)
            X[i][j] = rng.choice([g for g in range(len(POOL)) if g != M[i][j]])
            cs.append(eq(mat(rng, M), mat(rng, X), False, 'entry %d,%d differs' % (i + 1, j + 1)))
        elif k < .85:
            X = [list(x) for x in M]
            w = rng.random()
            if w < .5:
                X.append([rng.randrange(len(POOL)) for _ in range(c)])
            else:
                for x in X:
                    x.append(rng.randrange(len(POOL)))
            cs.append(eq(mat(rng, M), mat(rng, X), False, 'another shape'))
            cs.append(eq(mat(rng, X), mat(rng, M), False, 'another shape'))
        else:
            T = [list(x) for x in zip(*M)]
            cs.append(eq(mat(rng, M), mat(rng, T), T == M or r == 1 or c == 1, 'transposed'))
    for _ in range(N(tier, 25, 200)):
        v = [rng.randrange(len(POOL)) for _ in range(rng.randint(2, 4))]
        row, col = mat(rng, [v]), mat(rng, [[x] for x in v])
        lst = '[%s]' % ', '.join(spell(rng, g) for g in v)
        w = list(v)
        w[rng.randrange(len(w))] = rng.choice([g for g in range(len(POOL)) if g not in v])
        for a, b in ((row, col), (col, row), (row, lst), (col, lst), (lst, col), (lst, row)):
            cs.append(eq(a, b, True, 'row, column and list of the same entries'))
        cs.append(eq(row, '[%s]' % ', '.join(spell(rng, g) for g in w), False, 'an entry differs'))
        cs.append(eq(mat(rng, [[x] for x in w]), row, False, 'an entry differs'))
        cs.append(eq(row, mat(rng, [v + v[:1]]), False, 'another length'))
    for _ in range(N(tier, 20, 150)):
        M = [[rng.randint(-9, 9) for _ in range(2)] for _ in range(2)]
        nl = '[[%d, %d], [%d, %d]]' % tuple(M[0] + M[1])
        tx = mat(rng, [[str(x) for x in r] for r in M], pool=False)
        cs.append(eq(nl, tx, True, 'nested list'))
        cs.append(eq(tx, nl, True, 'nested list'))
        X = [list(r) for r in M]
        i, j = rng.randrange(2), rng.randrange(2)
        X[i][j] += rng.choice([1, -1, 5])
        cs.append(eq(mat(rng, [[str(x) for x in r] for r in X], pool=False), nl, False, 'an entry differs'))
        cs.append(eq(tx, mat(rng, [[str(x) for x in r] for r in X], pool=False), False, 'entry differs', 'are_equal_under_sympy'))
        t2 = mat(rng, [[str(x) for x in r] for r in M], pool=False)
        cs.append(eq(tx, t2, True, 'same', 'are_equal_under_sympy')) if 'B' not in tx + t2 else None
    four = ['1', '2', '3', '4']
    for a, b, e in ((mat(rng, [four], 'pmatrix', False), mat(rng, [four[:2], four[2:]], 'pmatrix', False), False),
                    (mat(rng, [four[:2], four[2:]], 'pmatrix', False), '[1,2,3,4]', False), ('[1,2,3,4]', mat(rng, [four[:2], four[2:]], 'pmatrix', False), False),
                    (mat(rng, [['1', '2', '3', '4', '5', '6']][:1], 'pmatrix', False), mat(rng, [['1', '2', '3'], ['4', '5', '6']], 'pmatrix', False), False),
                    (mat(rng, [['1', '2', '3'], ['4', '5', '6']], 'pmatrix', False), mat(rng, [['1', '2'], ['3', '4'], ['5', '6']], 'pmatrix', False), False)):
        cs.append(eq(a, b, e, 'shape'))
        cs.append(eq(a, b, e, 'shape', 'are_equal_under_sympy'))
    rng.shuffle(cs)
    return [c for c in cs if c]


# ------------------------------------------------------------------ P08
ENDS = [('-10', -10), ('-3', -3), ('-\\frac12', -.5), ('0', 0), ('0.25', .25), ('\\frac{1}{3}', 1 / 3), ('1', 1), ('\\sqrt{2}', 1.4142), ('2', 2), ('\\pi', 3.1416), ('4.5', 4.5), ('10', 10)]
ALT = {'-\\frac12': ['-0.5', '-1/2'], '0.25': ['\\frac14', '1/4'], '2': ['2.0', '\\frac{4}{2}'], '4.5': ['\\frac{9}{2}', '9/2'], '1': ['1.0'], '10': ['10.0'], '-3': ['-3.0'], '0': ['0.0']}


def gen_P08(rng, tier):
    cs = []
    sp = lambda t: rng.choice([t] + ALT.get(t, []))
    iv = lambda o, a, b, c: '%s%s%s%s%s' % (o, sp(a), rng.choice([',', ', ']), sp(b), c)
    O, C = '([', ')]'
    for _ in range(N(tier, 130, 1200)):
        i, j = sorted(rng.sample(range(len(ENDS)), 2))
        a, b = ENDS[i][0], ENDS[j][0]
        o, c = rng.choice(O), rng.choice(C)
        if rng.random() < .2:
            a, o = '-\\infty', '('
        elif rng.random() < .2:
            b, c = '\\infty', ')'
        k = rng.random()
        if k < .35:
            cs.append(eq(iv(o, a, b, c), iv(o, a, b, c), True, 'same interval'))
        elif k < .75:
            o2, c2 = rng.choice(O), rng.choice(C)
            if a == '-\\infty':
                o2 = o
            if b == '\\infty':
                c2 = c
            cs.append(eq(iv(o, a, b, c), iv(o2, a, b, c2), (o, c) == (o2, c2), 'openness'))
        else:
            h = rng.randrange(len(ENDS))
            if a != '-\\infty' and ENDS[h][0] != a and ENDS[h][1] < (ENDS[j][1] if b != '\\infty' else 99):
                cs.append(eq(iv(o, a, b, c), iv(o, ENDS[h][0], b, c), False, 'another left end'))
            elif b != '\\infty' and ENDS[h][0] != b and ENDS[h][1] > (ENDS[i][1] if a != '-\\infty' else -99):
                cs.append(eq(iv(o, a, b, c), iv(o, a, ENDS[h][0], c), False, 'another right end'))
    U = [' \\cup ', '\\cup', ' ⋃ ', '∪']
    for _ in range(N(tier, 60, 500)):
        i = sorted(rng.sample(range(len(ENDS)), 4))
        a, b, c, d = (ENDS[k][0] for k in i)
        o1, c1, o2, c2 = rng.choice(O), rng.choice(C), rng.choice(O), rng.choice(C)
        A, B = lambda: iv(o1, a, b, c1), lambda: iv(o2, c, d, c2)
        u = rng.choice(U)
        cs.append(eq(A() + u + B(), A() + rng.choice(U) + B(), True, 'union'))
        cs.append(eq(A() + u + B(), B() + u + A(), True, 'union in another order'))
        cs.append(eq(A() + u + B(), A() + u + iv(O[1 - O.index(o2)], c, d, c2), False, 'union, openness'))
        cs.append(eq(A() + u + B(), A(), False, 'union against one part'))
        cs.append(eq(B(), A() + u + B(), False, 'union against one part'))
        # overlapping pieces and intersections
        cs.append(eq(iv(o1, a, c, c1) + u + iv(o2, b, d, c2), iv(o1, a, d, c2), True, 'overlapping union'))
        cs.append(eq(iv(o1, a, c, c1) + ' \\cap ' + iv(o2, b, d, c2), iv(o2, b, c, c1), True, 'intersection'))
        cs.append(eq(iv(o1, a, c, c1) + rng.choice([' \\cap ', ' ∩ ']) + iv(o2, b, d, c2), iv(o1, a, d, c2), False, 'intersection is not union'))
    R = [('(5,2)', '(2,5)', False), ('[5,2]', '[2,5]', False), ('(5,2]', '[2,5)', False), ('(5,2)', '(5,2)', True), ('(3,-3)', '(-3,3)', False), ('(2, \\infty)', '(-\\infty, 2)', False),
         ('(2, \\infty)', '(2, +\\infty)', True), ('[2, \\infty)', '(2, \\infty)', False), ('(-\\infty, 0]', '(-\\infty, 0)', False), ('x \\in (1,2)', '(1,2)', True),
         ('x \\in [1,2)', '(1,2)', False), ('\\left(1,2\\right]', '(1,2]', True), ('(1,2)', '(1,2,3)', False), ('(1,3)', '(1,2)', False), ('(-1,1)', '[-1,1]', False),
         ('(-\\infty,1)\\cup(2,\\infty)', '(2,\\infty)\\cup(-\\infty,1)', True), ('(-\\infty,1)\\cup(2,\\infty)', '(-\\infty,2)\\cup(1,\\infty)', False),
         ('(-\\infty,1)\\cup(1,\\infty)', '(-\\infty,\\infty)', False), ('(0,1]\\cup[1,2)', '(0,2)', True), ('(0,1)\\cup(1,2)', '(0,2)', False), ('(0,1)\\cup[1,2)', '(0,2)', True),
         ('(0,1)\\cup(2,3)\\cup(4,5)', '(4,5)\\cup(0,1)\\cup(2,3)', True), ('(0,1)\\cup(2,3)\\cup(4,5)', '(0,1)\\cup(2,3)', False), ('(0,1)\\cup(2,3)\\cup(4,5)', '(0,1)\\cup(2,3)\\cup(4,6)', False),
         ('(0,5)\\cap(1,7)\\cap(2,9)', '(2,5)', True), ('(0,5)\\cap(1,7)', '(1,5)', True), ('(0,5)\\cap(1,7)', '(0,7)', False),
         ('[1,2] \\cap [3,4] \\cap [5,6]', '[5,6]', False), ('(1,1) \\cap [0,2]', '[0,2]', False), ('[2.99999999, 5]', '[2,5]', False), ('[2.99999999, 5]', '[3,5]', True), ('(1, 2.99999999)', '(1,2)', False), ('(1, 2.99999999)', '(1,3)', True), ('(-5, -2.99999999]', '(-5,-2]', False), ('(-3.00000001, 4)', '(-3,4)', True), ('[-2.99999999, 4)', '[-2,4)', False),
         ('(1,2)⋃(3,4)\\cup(5,6)', '(1,2)∪(5,6)∪(3,4)', True), ('(1,2)⋃(3,4)\\cup(5,6)', '(1,2)⋃(3,4)', False)]
    for a, b, e in R:
        cs.append(eq(a, b, e))
        cs.append(eq(b, a, e))
    rng.shuffle(cs)
    return cs


# ------------------------------------------------------------------ P09
def within(a, b):
    d, m = abs(a - b), abs(a)
    if m == 0:
        t = Fraction(1, 1000)
    elif m < 1:
        t = m / 1000
    else:
        t = Fraction(5, 1000)
    return d < t, abs(d - t) < t / 50


def gen_P09(rng, tier):
    cs = []

    def dec(q, n):
        s = '%0*d' % (n + 1, abs(int(q * 10 ** n)))
        return ('-' if q < 0 else '') + s[:-n] + '.' + s[-n:]
    for _ in range(N(tier, 220, 2000)):
        k = rng.random()
        if k < .3:
            a = Fraction(rng.randint(1000, 99999), 1000)
            d = Fraction(rng.choice([1, 2, 3, 4, 6, 7, 8, 12, 20, 50, 49, 51]), rng.choice([1000, 10000]))
        elif k < .6:
            a = Fraction(rng.randint(1000, 99000), 100000)
            d = a * Fraction(rng.choice([2, 5, 8, 9, 11, 12, 15, 20, 50]), 10000)
            d = Fraction(round(d * 10 ** 7), 10 ** 7)
        elif k < .7:
            a = Fraction(0)
            d = Fraction(rng.choice([1, 5, 9, 11, 15, 20, 50]), 10000)
        elif k < .8:
            a = Fraction(rng.randint(2, 5000))
            d = Fraction(rng.choice([1, 2, 4, 6, 10, 40, 48, 52, 60, 100]), 10000) * rng.choice([1, 1, 10])
        else:
            a = Fraction(rng.randint(-99999, -1000), 1000)
            d = Fraction(rng.choice([1, 3, 4, 6, 8, 20]), 1000)
        b = a + d * rng.choice([1, -1])
        e, near = within(a, b)
        if near:
            continue
        A, B = dec(a, 7), dec(b, 7)
        if Fraction(A) != a or Fraction(B) != b:
            continue
        near_int = lambda q: q != round(q) and abs(q - round(q)) < Fraction(2, 10 ** 7)
        if near_int(a) or near_int(b):
            continue
        cs.append(eq(A, B, e, '|difference| %s' % float(abs(a - b)), rng.choice(['is_equiv', 'is_equiv', 'are_equal_under_sympy'])))
        if rng.random() < .3 and a.denominator < 10 ** 5:
            cs.append(eq('\\frac{%d}{%d}' % (a.numerator, a.denominator), B, e, '|difference| %s' % float(abs(a - b))))
    for _ in range(N(tier, 70, 600)):
        n = rng.choice([1, 2, 5, 9, 15, 16, 17, 18, 20, 25, 40])
        a = rng.randint(10 ** (n - 1), 10 ** n)
        d = rng.choice([0, 1, -1, 2, 10, 1])
        sg = rng.choice(['', '-'])
        x, y = sg + '%d' % a, sg + rng.choice(['%d', '{:,}']).replace('%d', str(a + d)).format(a + d)
        cs.append(eq(x, y, d == 0, 'integers'))
        cs.append(eq(x, sg + '%d' % (a + d), d == 0, 'integers', 'are_equal_under_sympy'))
        if n >= 2:
            cs.append(eq('%d' % a, '-%d' % a, False, 'sign'))
    X = [('\\sqrt{2}', '1.4142', True), ('\\sqrt{2}', '1.42', False), ('\\pi', '3.14', True), ('\\pi', '3.13', False), ('\\pi', '3.1416', True), ('1/3', '0.332', False), ('1/3', '0.3333', True),
         ('2/3', '0.667', True), ('2/3', '0.66', False), ('e', '2.718', True), ('\\frac{1}{7}', '0.1429', True), ('\\frac{1}{7}', '0.1431', False), ('0', '0.0009', True), ('0', '0.0011', False),
         ('0', '-0.0009', True), ('0', '-0.002', False), ('0.001', '0', False), ('10^{20}', '10^{20}', True), ('\\ln{2}', '0.6931', True), ('\\ln{2}', '0.694', False), ('1000', '1000.004', True),
         ('1000', '1000.006', False), ('100000', '100000.01', False), ('100', '100.1', False), ('12345.678', '12345.682', True), ('12345.678', '12345.684', False), ('1.0', '1.0049', True),
         ('1.0', '1.0051', False), ('0.99', '0.9909', True), ('0.99', '0.9911', False), ('-0.5', '0.5', False), ('-0.5', '-0.5004', True), ('-0.5', '-0.5006', False), ('5', '5.0000', True),
         ('3/4', '0.75', True), ('7', '7.01', False), ('2^{10}', '1024', True), ('2^{10}', '1025', False), ('5!', '120', True), ('5!', '121', False), ('e', '2.72', True), ('e', '2.73', False),
         ('\\frac12-\\frac12', '0', True), ('\\sqrt{2}-\\sqrt{2}', '0.0005', True), ('\\frac12-\\frac12', '0.01', False), ('\\sqrt{8}-2\\sqrt{2}', '0', True), ('\\sin{1}-\\sin{1}', '0.5', False), ('\\sqrt{8}-2\\sqrt{2}', '0.002', False)]
    for a, b, e in X:
        if a == 'e':
            a = 'e^1'
        cs.append(eq(a, b, e))
    rng.shuffle(cs)
    return cs


# ------------------------------------------------------------------ P10
def gen_P10(rng, tier):
    cs = []
    f = 'are_equal_under_sympy'
    E = [('x+y=1', '1=x+y', True), ('x+y=1', 'x+y-1=0', True), ('x+y=1', '1-x-y=0', True), ('x+y=1', 'x+y=2', False), ('x+y=1', 'x-y=1', False), ('2x+3y=6', '6=3y+2x', True),
         ('2x+3y=6', '2x+3y-6=0', True), ('2x+3y=6', '2x-3y=6', False), ('x^2+y^2=4', 'y^2+x^2=4', True), ('x^2+y^2=4', 'x^2+y^2=5', False), ('x^2+y^2=4', '4-x^2=y^2', True),
         ('x^2-y^2=1', 'y^2-x^2=1', False), ('x^2-y^2=1', 'y^2-x^2=-1', True), ('2x+y=3', '3x+y=3', False), ('x-2y=5', '2y-x=5', False), ('x-2y=5', '2y-x=-5', True), ('a b=c+1', 'c+1=a b', True),
         ('2x=3', '3=2x', True), ('2x=3', '2x=4', False)]
    for a, b, e in E:
        for g in (f, 'is_equiv'):
            cs.append(eq(a, b, e, 'equations', g))
            cs.append(eq(b, a, e, 'equations', g))
    V = ['x', 'y', 'x+y', '2x-y', 'x^2']
    OPS = {'<': ['<'], '\\le': ['\\le', '\\leq', '<='], '>': ['>'], '\\ge': ['\\ge', '\\geq', '>=']}
    flip = {'<': '>', '>': '<', '\\le': '\\ge', '\\ge': '\\le'}
    for _ in range(N(tier, 70, 600)):
        l = rng.choice(V)
        r = rng.randint(1, 9)
        op = rng.choice(list(OPS))
        wr = lambda o: ' ' + rng.choice([t for t in OPS[o] if t.startswith('\\') or o in '<>']) + ' '
        a = '%s%s%d' % (l, wr(op), r)
        cs.append(eq(a, '%d%s%s' % (r, wr(flip[op]), l), True, 'mirrored', f))
        cs.append(eq(a, '%s-%d%s0' % (l, r, wr(op)), True, 'moved to one side', f))
        cs.append(eq(a, '%s%s%d' % (l, wr(flip[op]), r), False, 'opposite direction', f))
        cs.append(eq('%d%s%s' % (r, wr(op), l), a, False, 'opposite direction', f))
        st = {'<': '\\le', '\\le': '<', '>': '\\ge', '\\ge': '>'}
        cs.append(eq(a, '%s%s%d' % (l, wr(st[op]), r), False, 'strictness', f))
        cs.append(eq('%s%s%d' % (l, wr(st[op]), r), a, False, 'strictness'))
        cs.append(eq(a, '%s%s%d' % (l, wr(op), r + 1), False, 'another bound', f))
        cs.append(eq(a, '%d%s%s' % (r, wr(st[flip[op]]), l), False, 'mirrored, strictness', f))
        cs.append(eq(a, '%d%s%s' % (r, wr(flip[op]), l), True, 'mirrored'))
    for l, r in (('x', '1'), ('x', 'y'), ('x+y', '2'), ('2x', '3'), ('x^2', 'y+1')):
        n = lambda p, q: '%s \\ne %s' % (p, q)
        for g in (f, 'is_equiv'):
            cs.append(eq(n(l, r), n(r, l), True, 'disequality', g))
            cs.append(eq(n(l, r), n(l, r + '+0'), True, 'disequality', g))
            cs.append(eq(n(l, r), n(l, '5'), False, 'disequality', g))
            cs.append(eq(n('7', r), n(l, r), False, 'disequality', g))
            cs.append(eq(n(l, r), n(l, l + '+1'), False, 'disequality', g))
            cs.append(eq(n(l, r), '%s<%s' % (l, r), False, 'disequality against inequality', g))
            cs.append(eq('%s>%s' % (l, r), n(l, r), False, 'disequality against inequality', g))
    cs.append(eq('x<1', 'x+y=1', False, 'inequality against equation', f))
    rng.shuffle(cs)
    return cs


# ------------------------------------------------------------------ P11
def gen_P11(rng, tier):
    cs = []
    f = 'are_equal_under_sympy'
    for _ in range(N(tier, 60, 500)):
        n = rng.randint(2, 4)
        gs = rng.sample(range(len(POOL)), n)
        w = lambda q, b='[]': b[0] + ', '.join(POOL[g][0] for g in q) + b[1]
        v = lambda q, b='[]': b[0] + ', '.join(spell(rng, g) for g in q) + b[1]
        cs.append(eq(v(gs), v(gs), True, 'lists', f))
        h = list(gs)
        h[rng.randrange(n)] = rng.choice([g for g in range(len(POOL)) if g not in gs])
        cs.append(eq(v(gs), v(h), False, 'an element differs', f))
        h = gs[1:] + gs[:1]
        cs.append(eq(v(gs), v(h), False, 'another order', f))
        cs.append(eq(v(gs), v(gs + [h[0]]), False, 'another length', f))
        cs.append(eq(v(gs + [h[0]]), v(gs), False, 'another length', f))
    for a, b, e in (('[1, 2]', '[1, 2, 3]', False), ('[x, x-1]', '[x-1, x]', False), ('{3, 1}', '[1, 3]', False), ('[1, 3]', '{3, 1}', False), ('{7, 5, 6}', '[5, 6, 7]', False), ('[5, 6, 7]', '{7, 6, 5}', False)):
        cs.append(eq(a, b, e, 'list against set', f))
    C = []
    for _ in range(N(tier, 40, 300)):
        a, b = rng.choice([-4, -3, 2, 5, 7]), rng.choice([-6, -2, 3, 4, 8])
        t = lambda p, q: rng.choice(['%d%+di' % (p, q), '%di%+d' % (q, p), '%d%+d*i' % (p, q)])
        C += [(t(a, b), t(a, b), True), (t(a, b), t(a, -b), False), (t(a, b), t(b, a), False), (t(a, b), t(a + 1, b), False), (t(a, b), t(a, b + 1), False), (t(a, b), '%d' % a, False),
              (t(a, b), t(-a, b), False), ('%d%+dI' % (a, b), '%d%+dI' % (a, b + 2), False), ('%d%+dI' % (a, b), '%dI%+d' % (b, a), True), ('%d%+dI' % (a, b), '%d%+dI' % (a + 3, b), False)]
    C += [('i(2+i)', '2i-1', True), ('i(2+i)', '2i+1', False), ('(1+i)^2', '2i', True), ('(1+i)^2', '-2i', False), ('\\sqrt{-4}', '2I', True), ('\\sqrt{-4}', '3I', False)]
    for a, b, e in C:
        cs.append(eq(a, b, e, 'complex numbers', f))
    F = [('f(x)=x^2', 'y=x^2', True), ('f(x)=x^2', 'x^2', True), ('x^2', 'f(x)=x^2', True), ('f(x)=x^2', 'g(x)=x^2+1', False), ('f(x)=x^2', 'x^3', False), ('y=2x+1', '2x+1', True),
         ('y=2x+1', 'f(x)=1+2x', True), ('y=2x+1', 'y=2x-1', False), ('z=x+y', 'f(x,y)=y+x', True), ('y=2x+1', '2x+2', False), ('3', 'x=3', True), ('x=3', 'x=4', False), ('x=3', '3', True)]
    for d, r in (('f(x)', 'x^2'), ('y', '2x+1'), ('g(t)', 't-3')):
        v = {'f(x)': 'y', 'y': 'y', 'g(t)': 'u'}[d]
        for op in ('<', '>', '\\le', '\\geq', '\\ne'):
            F.append(('%s=%s' % (d, r), '%s %s %s' % (v, op, r), False))
    for a, b, e in (('2+3j', '2+3i', False), ('j', 'i', False), ('2+3k', '2+3i', False), ('3+2j+j', '3+3I', False), ('x', 'i', False)):
        cs.append(eq(a, b, e, 'only i is the imaginary unit', f))
        cs.append(eq(b, a, e, 'only i is the imaginary unit', f))
        cs.append(eq(a, b, e, 'only i is the imaginary unit'))
    for a, b, e in F:
        cs.append(eq(a, b, e, 'function definitions', f))
        cs.append(eq(b, a, e, 'function definitions', f))
        cs.append(eq(a, b, e, 'function definitions'))
    for _ in range(N(tier, 30, 200)):
        n = rng.randint(2, 4)
        v = [str(rng.randint(-9, 9)) for _ in range(n)]
        row, col = mat(rng, [v], 'bmatrix', False), mat(rng, [[x] for x in v], 'bmatrix', False)
        lst = '[%s]' % ', '.join(v)
        w = list(v)
        w[rng.randrange(n)] = '77'
        for m in (row, col):
            cs.append(eq(m, lst, True, 'vector against list', f))
            cs.append(eq(lst, m, True, 'vector against list', f))
            cs.append(eq(m, '[%s]' % ', '.join(w), False, 'an entry differs', f))
            cs.append(eq('[%s]' % ', '.join(w), m, False, 'an entry differs', f))
            cs.append(eq(m, '[%s]' % ', '.join(v + ['1']), False, 'another length', f))
            cs.append(eq('[%s]' % ', '.join(v + ['1']), m, False, 'another length', f))
    rng.shuffle(cs)
    return cs


# ------------------------------------------------------------------ P12
def strip_thousands(s):
    """A whole number of up to three digits, not starting with 0 and not behind a decimal point, and groups of exactly three digits
    (a space may follow the comma)."""
    out, i = '', 0
    while i < len(s):
        j = i
        while j < len(s) and s[j] in '0123456789':
            j += 1
        if j == i:
            out, i = out + s[i], i + 1
            continue
        run = s[i:j]
        ok = j - i <= 3 and run[0] != '0' and not (i and s[i - 1] == '.')
        while ok and s[j:j + 1] == ',':
            k = j + 1 + (s[j + 1:j + 2] == ' ')
            e = k
            while e < len(s) and s[e] in '0123456789':
                e += 1
            if e - k != 3:
                break
            run, j = run + s[j + 1:e], e
        out, i = out + run, j
    return out


def ref_split(s):
    """The documented splitting, written independently of the code."""
    s = strip_thousands(s)
    op, cl = '([{', ')]}'
    depth, outer = 0, True
    for i, ch in enumerate(s):
        depth += (ch in op) - (ch in cl)
        if depth == 0 and i < len(s) - 1:
            outer = False
    kind = 'set'
    if outer and len(s) > 2 and s[0] + s[-1] in ('()', '[]', '{}'):
        kind = {'(': 'tuple', '[': 'list', '{': 'set'}[s[0]]
        s = s[1:-1]
    depth, cur, out = 0, '', []
    for ch in s:
        if ch == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            depth += (ch in op) - (ch in cl)
            cur += ch
    if cur:
        out.append(cur.strip())
    return kind, out, s


def balanced(rng, depth):
    out = ''
    for _ in range(rng.randint(1, 5)):
        k = rng.random()
        if k < .35 and depth > 0:
            b = rng.choice(['()', '[]', '{}', '()'])
            out += b[0] + balanced(rng, depth - 1) + b[1]
        elif k < .6:
            out += ','
        elif k < .7:
            out += ', '
        else:
            out += rng.choice(['a', 'b', '12', '1,234', '7', 'x+1', ' ', '\\frac{1}{2}', '123', '000', '5, 678', '-', '1,2345', '12345,678', '0,500', '0.5,125', '12,345,678', '100', '0'])
    return out


def gen_P12(rng, tier):
    cs = []
    for _ in range(N(tier, 1500, 30000)):
        s = balanced(rng, 3)
        if rng.random() < .5:
            b = rng.choice(['()', '[]', '{}'])
            s = b[0] + s + b[1]
            if rng.random() < .15:
                s = s[:-1] + rng.choice([x for x in ')]}' if x != s[-1]])
        kind, out, inner = ref_split(s)
        cs.append(['split', dict(s=s, expect=out if len(out) > 1 else inner, kind=kind)])
    # through the comparison: nested elements stay together
    for a, b, e in (('((1,2,0),(3,4,0),5)', '((1,2,0),(3,4,0),5)', True), ('((1,2,0),(3,4,0),5)', '(1,2,0,3,4,0,5)', False), ('[(1,2),(3,4)]', '[(1,2),(3,5)]', False), ('(1,2,0),(3,4,0)', '((1,2,0),(3,4,0))', False),
                    ('(1,234,5)', '(1234,5)', True), ('(1,23,4)', '(123,4)', False), ('(1,2345,4)', '(1,2345,4)', True), ('(12,345,678,9)', '(12345678,9)', True), ('f(1,2,7),3', '3,f(1,2,7)', True),
                    ('[[1,2,3],[4,5,6]]', '[1,2,3,4,5,6]', False), ('{1,2,3}', '1,2,3', True), ('(1,2,3)', '1,2,3', False), ('[1,2,3]', '(1,2,3)', False), ('\\frac{1}{2},3', '3,0.5', True),
                    ('(a,b,c)', '(a,b)', False), ('(a,b,c)', '(a, b,  c)', True), ('(1,2,3)(4,5,6)', '(1,2,3,4,5,6)', False), ('(1,2,3),4', '(1,2,3,4)', False)):
        cs.append(eq(a, b, e, 'splitting'))
    P = ['1', '-2', 'x', '\\frac12', '7.5', 'y+1', '\\sqrt{3}', 'f(1,2)']
    for _ in range(N(tier, 150, 1500)):
        r, c = rng.randint(1, 4), rng.randint(1, 4)
        M = [[rng.choice(P[:7]) for _ in range(c)] for _ in range(r)]
        env = rng.choice(['matrix', 'pmatrix', 'bmatrix', 'vmatrix'])
        exp = [x[0] if c == 1 else x for x in M]
        if len(exp) == 1 and isinstance(exp[0], list):
            exp = exp[0]
        if r == c == 1:
            continue
        cs.append(['splitmat', dict(s='\\begin{%s}%s\\end{%s}' % (env, '\\\\'.join('&'.join(x) for x in M), env), expect=exp)])
        if c > 1:
            cs.append(['splitmat', dict(s='[%s]' % ','.join('[%s]' % ','.join(x) for x in M), expect=exp)]) if r > 1 else None
        if r == 1:
            cs.append(['splitmat', dict(s='[%s]' % ', '.join(M[0]), expect=M[0])])
    return [c for c in cs if c]


# ------------------------------------------------------------------ P15
def gen_P15(rng, tier):
    cs = []
    probes = [['is_equiv', ['\\frac12', '0.5']], ['is_equiv', ['x+1', '1+x']], ['is_equiv', ['A', 'B']], ['is_equiv', ['2A', 'A+A']], ['latex2sympy', ['\\frac{dy}{dx}']], ['latex2sympy', ['\\frac{d}{x}']],
              ['latex2sympy', ['\\frac{\\partial f}{\\partial x}']], ['latex2sympy', ['\\frac{x}{y}']], ['latex2sympy', ['\\variable{a}+1']], ['latex2sympy', ['\\variable{b}\\%']],
              ['latex2sympy', ['A+x']], ['latex2sympy', ['|x|']], ['latex2sympy', ['\\sqrt{x^2}']], ['latex2sympy', ['\\begin{vmatrix}A&1\\\\2&3\\end{vmatrix}']],
              ['latex2sympy', ['[x, y]']], ['latex2sympy', ['x+']], ['are_equal_under_sympy', ['(x+1)^2', 'x^2+2x+1']], ['is_equiv', ['(1,2,3)', '(1,2,4)']], ['is_equiv', ['1,2', '2,1']],
              ['latex2sympy', ['\\int x dx']], ['is_equiv', ['50\\%', '0.5']], ['is_equiv', ['n', 'm']], ['latex2sympy', ['X_1+Y_{12}']], ['latex2sympy', ['\\frac{d(x^2)}{dx}']], ['is_equiv', ['2x+y', 'y+2x']]]
    # symbol declarations made by direct calls of the parser are explicit settings, those inside answers are not
    steps = [['is_equiv', ['A \\in R^{2*3}', 'A \\in R^{2*3} ']], ['is_equiv', ['B \\in R^{3*4}', '5']], ['is_equiv', ['x+', 'y']], ['is_equiv', ['\\frac{dy}{dx}', '\\frac{d}{dx}y']],
             ['is_equiv', ['\\frac{\\partial f}{\\partial x}', '3']], ['latex2sympy', ['\\frac{dy}{dx}']], ['latex2sympy', ['\\frac{\\partial f}{\\partial y}']], ['latex2sympy', ['\\dfrac{1}{2}']],
             ['latex2sympy', ['\\variable{a}', {'a': '3'}]], ['latex2sympy', ['\\variable{a}+\\variable{b}', {'a': '3', 'b': '1/2'}]], ['latex2sympy', ['\\variable{a', {'a': '5'}]],
             ['latex2sympy', ['\\frac{\\variable{a}}{+', {'a': '5'}]], ['latex2sympy', ['\\frac{d}{dx}']], ['latex2sympy', ['\\unknown']], ['latex2sympy', ['\\tfrac{x}{y}']], ['is_equiv', ['(1,2', '3']],
             ['is_equiv', ['n \\in R^{2*2}', 'n']], ['are_equal_under_sympy', ['x \\in R^{2*2}', 'x']], ['is_equiv', ['[x,y]', '[y,x]']], ['is_equiv', ['\\begin{vmatrix}1&2\\\\3&4\\end{vmatrix}', '-2']],
             ['is_equiv_type', ['1+2i', '2i+1', 'Complex']], ['is_equiv_type', ['f(x)=x', 'x', 'Function']], ['string_normalize', ['50\\%']], ['is_equiv', ['\\int x dx', '\\frac{x^2}{2}']],
             ['is_equiv', ['x \\in R^{y*z}', '1']], ['latex2sympy', ['\\frac{d\\variable{a}}{dx}', {'a': '3'}]], ['is_equiv', ['\\variable{a}', '3']], ['is_equiv', ['A_1 \\in R^{2*2}', 'A_1']]]
    for s in steps:
        cs.append(['history', dict(history=[s], probes=probes)])
    for _ in range(N(tier, 10, 80)):
        cs.append(['history', dict(history=[rng.choice(steps) for _ in range(rng.randint(2, 10))], probes=probes)])
    cs.append(['history', dict(history=probes, probes=list(reversed(probes)))])
    # calls that share an argument with an earlier one
    pool = history_pool(rng)
    for _ in range(N(tier, 14, 120)):
        base = rng.sample(pool, 7) + [['is_equiv', list(rng.choice(ASYMMETRIC))]]
        H, Q = [], list(base)
        for f, a in base:
            o = rng.choice([x for x in pool if x[0] == f])
            if f == 'latex2sympy':
                H += [[f, o[1]]]
                if len(a) > 1:
                    H += [[f, [a[0]]], [f, [a[0], {k: '7' for k in a[1]}]]]
                    Q += [[f, [a[0]]]]
                else:
                    H += [[f, [a[0], {'a': '3'}]]]
            else:
                H += [[f, [a[0], o[1][1]] + a[2:]], [f, [o[1][0], a[1]] + a[2:]], [f, [a[1], a[0]] + a[2:]]]
                Q += [[f, [a[0], o[1][1]] + a[2:]]]
                if f == 'is_equiv_type':
                    H += [[f, a[:2]], [f, a[:2] + [rng.choice(['Set', 'Vector', 'Complex', 'Function'])]]]
                    Q += [[f, a[:2]]]
        H += [rng.choice(steps) for _ in range(3)]
        rng.shuffle(H)
        cs.append(['history', dict(history=H, probes=Q + rng.sample(probes, 4))])
    return cs


# the tolerance belongs to the reference: these are equal in one direction only
ASYMMETRIC = [p for a, b in (('0.999', '1.0035'), ('0.9985', '1.003'), ('-0.999', '-1.0036'), ('0', '0.0009'), ('\\frac{999}{1000}', '1.003'), ('(2,0.999)', '(2,1.0035)')) for p in ((a, b), (b, a))]


def history_pool(rng):
    import gens_norm
    import gens_tex
    G = dict(GEN)
    G.update(gens_norm.GEN)
    G.update(gens_tex.GEN)
    out = []
    for p in ('P05', 'P06', 'P07', 'P08', 'P09', 'P10', 'P11', 'P16', 'P17', 'P18', 'P13', 'P14', 'P20', 'P21'):
        try:
            cs = [c for c in G[p](rng, 'quick')]
        except KeyError:
            continue
        got = []
        for k, d in cs:
            if k == 'eq' and d.get('fn', 'is_equiv') == 'is_equiv' and max(len(str(d['a'])), len(str(d['b']))) < 60:
                got.append(['is_equiv', [d['a'], d['b']]])
            elif k == 'type':
                got.append(['is_equiv_type', [d['a'], d['b']] + d.get('rest', [])])
            elif k in ('value', 'object') and len(d['tex']) < 60:
                got.append(['latex2sympy', [d['tex']] + d.get('rest', [])])
        out += rng.sample(got, min(40, len(got)))
    return out


# ------------------------------------------------------------------ P16
def gen_P16(rng, tier):
    cs = []
    # (gt, prediction, accepted in general, specialised comparisons that accept)
    S = [('1,2,3', '(1,2,3)', False, 'S'), ('1,2,3', '[1,2,3]', False, 'VS'), ('(1,2,3)', '[3,2,1]', False, 'S'), ('(1,2,3)', '(3,2,1)', False, 'S'), ('1,2,3', '3,2,1', True, 'S'),
         ('(3,2,1)', '3,2,1', False, 'S'), ('5,6', '7,8', False, ''), ('(1,2,3)', '(1,2,4)', False, ''), ('{1,2,3}', '[1,2,3]', False, 'VS'), ('1,2,3', '{3,1,2}', True, 'S'),
         ('2y=4x', '2x', False, ''), ('x+y', 'x-y', False, ''), ('4', '5', False, ''), ('1,2,3', '(1,2)', False, ''), ('(1,2)', '1,2,3', False, ''),
         ('1,3', '(1,2)', False, ''), ('3', '3.0', True, 'CF'), ('x', 'y', False, ''), ('g(x)+1=x', 'h(x)+1=x', False, 'F'), ('2y=x^2', '3y=x^2', False, 'F'), ('2y=x^2', 'x^2', False, 'F'),
         ('x^2', 'x+y=x^2', False, 'F'), ('2y=x^2', 'x^3', False, '')]
    typ = {'C': 'Complex', 'S': 'Set', 'V': 'Vector', 'F': 'Function'}
    names = ['Real', 'Interval(s)', 'Matrix', 'Expression', 'Equation', 'Inequality', 'Others', 'unknown', '', 'vector', 'set']
    for a, b, gen, sp in S:
        cs.append(eq(a, b, gen, 'general'))
        cs.append(['type', dict(a=a, b=b, rest=[], expect=gen, why='no type')])
        cs.append(['type', dict(a=a, b=b, rest=[None], expect=gen, why='no type')])
        for t in rng.sample(names, 5) + ['']:
            cs.append(['type', dict(a=a, b=b, rest=[t], expect=gen, why='a type without a specialised comparison')])
        for k, t in typ.items():
            cs.append(['type', dict(a=a, b=b, rest=[t], expect=gen or k in sp, why='specialised comparisons that accept: %s' % (sp or 'none'))])
            cs.append(['type', dict(a=a, b=b, rest=['Real, %s' % t], expect=gen or k in sp, why='specialised comparisons that accept: %s' % (sp or 'none'))])
            for k2, t2 in typ.items():
                if k2 != k:
                    cs.append(['type', dict(a=a, b=b, rest=['%s%s%s' % (t, rng.choice([', ', ' or ', '/']), t2)], expect=gen or k in sp or k2 in sp, why='accepting: %s' % (sp or 'none'))])
    G = [('x+1', '1+x'), ('\\frac12', '0.5'), ('(1,2)', '(1,2.0)'), ('50\\%', '0.5'), ('1+2i', '2i+1'), ('30^\\circ', '\\frac{\\pi}{6}'), ('[1,2)', '[1,2.0)'), ('{1,2}', '{2,1}'),
         ('x<1', '1>x'), ('f(x)=x^2', 'x^2'), ('\\begin{pmatrix}1\\\\2\\end{pmatrix}', '[1,2]'), ('\\text{yes}', 'yes'), ('8:30 pm', '20:30')]
    for a, b in G:
        for t in list(typ.values()) + ['Real', '', 'Set, Vector', 'Complex, Function']:
            cs.append(['type', dict(a=a, b=b, rest=[t], expect=True, why='the general comparison accepts')])
    CC = [('2+i', '2+i+0', True), ('ix', 'xi', None), ('x+yi', 'x-yi', False), ('1+i', '1-i', False), ('\\sin(x)+\\cos(x)i', '\\sin(x)-\\cos(x)i', False)]
    for a, b, e in CC:
        if e is not None:
            cs.append(['type', dict(a=a, b=b, rest=['Complex'], expect=e, why='complex')])
    D = [('x + 2 i', '2 i + x', True), ('i^2', '-1', True), ('x + i^2', 'x-1', True)]
    for a, b, e in D:
        cs.append(['type', dict(a=a, b=b, rest=['Complex'], expect=e, why='i is the imaginary unit')])
    rng.shuffle(cs)
    return cs


GEN = {k[4:]: v for k, v in list(globals().items()) if k.startswith('gen_')}
