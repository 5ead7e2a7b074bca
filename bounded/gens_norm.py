"""Cases of the normalisation properties (P17, P18) and of the model classification (P19)."""
from fractions import Fraction
from gens_cmp import eq, N


def rd(s, *vals, rel='0', single=False):
    return ['readings', dict(s=s, values=[str(Fraction(v)) for v in vals], rel=rel, single=single)]


def group(n, sep=','):
    return '{:,}'.format(n).replace(',', sep)


def gen_P17(rng, tier):
    cs = []
    for _ in range(N(tier, 120, 1500)):
        k = rng.choice([1, 2, 3, 4, 6, 9, 12, 15, 16, 17, 18, 19, 20, 22, 25, 30, 40, 60])
        n = rng.randint(10 ** (k - 1), 10 ** k - 1)
        sg = rng.choice(['', '', '-'])
        v = -n if sg else n
        forms = ['%d' % n, group(n), group(n, '{,}'), group(n, ', ')] if k > 3 else ['%d' % n]
        f = rng.choice(forms)
        w = rng.choice(['%s', '$%s$', ' %s ', '\\$%s', '%s\\,', '\\!%s', '{%s}', '%s.0', '%s.000', '%s\\;'])
        if w.startswith('\\$') and sg:
            w = '%s'
        if '.0' in w and f != forms[0]:
            w = '%s'
        if w == '{%s}' and f != forms[0]:
            w = '%s'
        cs.append(rd(w % (sg + f), v, single=True))
        cs.append(eq(w % (sg + f), '%d' % v, True, 'the same integer'))
        cs.append(eq('%d' % v, w % (sg + f), True, 'the same integer'))
        cs.append(eq(w % (sg + f), '%d' % (v + rng.choice([1, -1, 2])), False, 'another integer'))
    for _ in range(N(tier, 60, 800)):
        d = rng.randint(1, 12)
        s = rng.choice(['', '-']) + '%d.%s' % (rng.choice([0, rng.randint(1, 9), rng.randint(10, 99999)]), ''.join(rng.choice('0123456789') for _ in range(d)))
        q = Fraction(s)
        if abs(q - round(q)) < Fraction(1, 10 ** 6) and q != round(q):
            continue
        cs.append(rd(s, q, single=True))
        cs.append(rd(rng.choice(['$%s$', '\\$%s', ' %s', '%s\\,']) % s, q, single=True))
        if s[0] not in '-0.':
            cs.append(eq(s, s + '0', True, 'the same decimal'))
    for _ in range(N(tier, 40, 400)):
        m = rng.choice(['%d' % rng.randint(1, 9), '%d.%s' % (rng.randint(1, 9), ''.join(rng.choice('0123456789') for _ in range(rng.randint(1, 9))))])
        e = rng.randint(-6, 20)
        s = rng.choice(['', '-']) + '%s%s%s%d' % (m, 'e', rng.choice(['', '+']) if e >= 0 else '', e)
        q = Fraction(s)
        if abs(q) < Fraction(1, 10 ** 6) or abs(q - round(q)) < Fraction(1, 10 ** 6) and q != round(q):
            continue
        cs.append(rd(s, q, single=True))
        cs.append(eq(s, ('%s \\times 10^{%d}' if rng.random() < .5 else '%s \\cdot 10^{%d}') % (s.split('e')[0], e), True, 'scientific notation'))
        cs.append(eq(s, '%s \\times 10^{%d}' % (s.split('e')[0], e + 1), False, 'another power of ten'))
    for _ in range(N(tier, 60, 600)):
        a, b, c = rng.randint(1, 40), rng.randint(1, 9), rng.randint(2, 12)
        sg = rng.choice(['', '-', '- '])
        v = (a + Fraction(b, c)) * (-1 if sg else 1)
        t = rng.choice(['%d %d/%d' % (a, b, c), '%d\\frac{%d}{%d}' % (a, b, c), '%d \\frac{%d}{%d}' % (a, b, c)] + (['%d\\frac%d%d' % (a, b, c)] if c < 10 else []) + ['%d\\dfrac{%d}{%d}' % (a, b, c)])
        cs.append(rd(sg + t, v, single=True))
        cs.append(eq(sg + t, '\\frac{%d}{%d}' % (v.numerator, v.denominator) if v >= 0 else '-\\frac{%d}{%d}' % (-v.numerator, v.denominator), True, 'mixed number'))
        w = (a - Fraction(b, c)) * (-1 if sg else 1)
        cs.append(eq(sg + t, '%s%d/%d' % ('-' if w < 0 else '', abs(w.numerator), w.denominator), False, 'mixed number, wrong sign inside'))
        w = Fraction(a * b, c) * (-1 if sg else 1)
        if abs(w - v) > 1:
            cs.append(eq(sg + t, '%s%d/%d' % ('-' if w < 0 else '', abs(w.numerator), w.denominator), False, 'mixed number is not a product'))
    for _ in range(N(tier, 12, 120)):
        (a, b, c), (d, e, g) = ((rng.randint(1, 20), rng.randint(1, 9), rng.randint(2, 12)) for _ in range(2))
        v, w = a + Fraction(b, c), d + Fraction(e, g)
        o, k = rng.choice(['()', '[]', ('', '')])
        t = rng.choice(['%d %d/%d, %d %d/%d', '%d\\frac{%d}{%d}, %d\\frac{%d}{%d}']) % (a, b, c, d, e, g)
        cs.append(eq(o + t + k, o + '%s,%s' % (v, w) + k, True, 'two mixed numbers'))
        if abs(w + 1 - v) > Fraction(1, 10):
            cs.append(eq(o + t + k, o + '%s,%s' % (v, w + 1) + k, False, 'two mixed numbers'))
    for word, p in (('million', 6), ('billion', 9), ('trillion', 12)):
        for s in ('5', '2.5', '12', '0.75', '1', '340', '-3', '\\$7', '\\$1.2', '1,500'):
            v = Fraction(s.replace('\\$', '').replace(',', '')) * 10 ** p
            t = '%s %s' % (s, word)
            if ',' not in s:
                cs.append(rd(t, v, single=True))
            cs.append(eq(t, '%d' % v, True, word))
            cs.append(eq('%d' % v, t, True, word))
            cs.append(eq(t, '%d' % (v * 1000), False, word))
            cs.append(eq(t, '%d' % (v / 1000 if p > 6 else v * 10), False, word))
            cs.append(eq(t, s.replace('\\$', ''), False, word))
    for _ in range(N(tier, 60, 600)):
        p = rng.choice(['%d' % rng.randint(0, 400), '%d.%d' % (rng.randint(0, 99), rng.randint(1, 99)), '%d.%05d' % (rng.randint(0, 99), rng.randint(1, 99999)), '0.%02d' % rng.randint(1, 99), '-%d' % rng.randint(1, 99), '%d' % rng.randint(1000, 10 ** 6)])
        f = rng.choice(['%s\\%%', '%s%%', '%s \\%%', '$%s\\%%$' if False else '%s\\%%', ' %s\\%% ', '%s\\!\\%%', '%s\\,\\%%'])
        cs.append(rd(f % p, Fraction(p), Fraction(p) / 100, rel='1/10000000000000'))
    for n in (1000, 2500, 12000, 1234567):
        cs.append(rd(group(n) + '\\%', n, Fraction(n, 100), rel='1/10000000000000'))
        cs.append(eq(group(n) + '\\%', str(Fraction(n, 100)), True, 'p/100'))
        cs.append(eq(group(n) + '\\%', str(n), True, 'p'))
        cs.append(eq(group(n) + '\\%', str(n * 10), False, 'neither'))
    for _ in range(N(tier, 60, 600)):
        b = rng.choice([2, 3, 4, 5, 6, 7, 8, 9, 9, 12, 16])
        d = ''.join(rng.choice('0123456789'[:min(b, 10)]) for _ in range(rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 12, 15, 24]))).lstrip('0') or '1'
        f = '%s_{%d}' % (d, b) if b > 9 or rng.random() < .5 else '%s_%d' % (d, b)
        cs.append(rd(f, int(d), int(d, b)))
        cs.append(eq(f, '%d' % int(d, b), True, 'read in the base'))
        if int(d, b) != int(d):
            rev = int(d[::-1], b)
            if rev not in (int(d, b), int(d)):
                cs.append(eq(f, '%d' % rev, False, 'digits in the wrong order'))
            if int(d, b) + 1 != int(d):
                cs.append(eq(f, '%d' % (int(d, b) + 1), False, 'another number'))
    return cs


LONG = ["centimeter", "second", "degree", "dollar", "minute", "radian", "pound", "month", "meter", "mile", "hour", "year", "cent", "inch", "yard", "week", "day"]
LONG_ONE = ["feet", "foot", "mph", "units", "rad", "edges"]
SHORT = ["eV", "kg", "mg", "km", "cm", "dm", "ml", "mL", "ft", "in"]
SINGLE = ["L", "l", "m", "g"]
CHINESE = ["米", "千米", "厘米", "平方米", "立方厘米", "元", "公里", "分米", "毫米", "升", "度", "分"]
PLURAL = {'inch': 'inches', 'foot': 'feet'}


def gen_P18(rng, tier):
    cs = []

    def val():
        k = rng.random()
        if k < .4:
            v = rng.randint(1, 999)
            return '%d' % v, v
        if k < .6:
            v = Fraction(rng.randint(11, 999), 10)
            return '%.1f' % float(v), v
        if k < .8:
            a, b = rng.randint(1, 9), rng.randint(2, 9)
            return '\\frac{%d}{%d}' % (a, b), Fraction(a, b)
        a, b = rng.randint(1, 30), rng.randint(2, 30)
        return '%d/%d' % (a, b), Fraction(a, b)

    def unit(s):
        t, v = val()
        cs.append(rd(s % t, v, single=True))
        cs.append(eq(s % t, t, True, 'the unit is dropped'))
        if rng.random() < .3:
            cs.append(eq(t, s % t, True, 'the unit is dropped'))
            n = rng.randint(2, 99)
            cs.append(eq(s % n, '%d' % (n + 1), False, 'the value is kept'))
            cs.append(eq(s % n, '%d' % (n * 10), False, 'the value is kept'))
    for u in LONG:
        pl = PLURAL.get(u, u + 's')
        for w in (u, pl):
            for f in rng.sample(['%%s \\text{%s}', '%%s\\text{ %s}', '%%s %s', '%%s~\\text{%s}' if False else '%%s\\ \\text{%s}' if False else '%%s \\mbox{%s}', '%%s\\mbox{ %s}', '%%s \\text{ %s }'], N(tier, 3, 5)):
                unit(f % w)
        for f in ('%%s \\text{%s}^2', '%%s \\text{%s}^{3}', '%%s \\text{ %s}^{2}', '%%s %s^2', '%%s \\text{%s^2}', '%%s \\mbox{%s}^2', '%%s \\text{%ss}^{2}'):
            if rng.random() < .6:
                unit(f % u)
    for u in LONG_ONE:
        for f in ('%%s \\text{%s}', '%%s\\text{ %s}', '%%s %s', '%%s \\mbox{%s}', '%%s \\text{%s}^2', '%%s \\text{%s}^{2}'):
            unit(f % u)
    for u in SHORT:
        for f in ('%%s \\text{%s}', '%%s\\text{ %s}', '%%s %s', '%%s\\mbox{%s}', '%%s \\text{%s}^2', '%%s \\text{%s}^{2}', '%%s %s^2', '%%s \\text{%s^2}', '%%s\\text{%s}^3'):
            unit(f % u)
    for u in SINGLE:
        for f in ('%%s \\text{%s}', '%%s\\text{ %s}', '%%s \\mbox{%s}', '%%s \\text{%s}^2', '%%s\\text{%s}^{3}', '%%s \\text{%s^2}'):
            unit(f % u)
    for u in CHINESE:
        for f in ('%%s%s', '%%s %s', '%%s\\text{%s}', '%%s \\text{ %s}'):
            unit(f % u)
    for s in ('%s \\text{square feet}', '%s square meters', '%s \\text{square units}', '%s square inches', '%s \\text{square centimeters}', '%s\\text{ square miles}', '%s \\text{apples}', '%s\\text{ green marbles}'):
        unit(s)
    for n in ['30', '45', '60', '90', '120', '22.5', '180', '7', '-30', '0.5', '360', '12.25'] + [str(rng.randint(1, 359)) for _ in range(N(tier, 8, 60))]:
        v = Fraction(n)
        pi = Fraction(3141592653589793238, 10 ** 18)
        for f in ('%s^\\circ', '%s^{\\circ}', '%s ^ \\circ', '%s^{ \\circ }', '$%s^\\circ$'):
            if rng.random() < .6:
                cs.append(rd(f % n, v, v / 180 * pi))
        cs.append(eq('%s^\\circ' % n, n, True, 'degrees'))
        r = v / 180
        cs.append(eq('%s^\\circ' % n, '%s\\frac{%d\\pi}{%d}' % ('-' if r < 0 else '', abs(r.numerator), r.denominator), True, 'radians'))
        if abs(v) >= 1:
            cs.append(eq('%s^\\circ' % n, '%s\\frac{%d\\pi}{%d}' % ('-' if r < 0 else '', abs(r.numerator), r.denominator * 2), False, 'another angle'))
    for _ in range(N(tier, 120, 1200)):
        h, m, s = rng.randint(0, 23), rng.choice([0, 0, 5, 9, rng.randint(1, 59)]), rng.choice([None, 0, 0, 7, rng.randint(1, 59)])
        txt = rng.choice(['%d', '%02d']) % h + ':%02d' % m + ('' if s is None else ':%02d' % s)
        parts = lambda hh: '[%d, %d, %d]' % (hh, m, s) if s else '[%d, %d]' % (hh, m) if m else '%d' % hh
        mer = rng.choice(['', '', ' am', 'am', ' a.m.', ' \\text{am}', '\\text{ a.m.}', ' AM', '\\text{ AM}'])
        if mer:
            h2 = rng.randint(1, 11)
            txt = txt.replace(txt.split(':')[0], str(h2), 1)
            cs.append(['norm', dict(s=txt + mer, expect=[parts(h2)])])
        else:
            cs.append(['norm', dict(s=txt, expect=[parts(h)])])
        h3 = rng.randint(1, 11)
        pm = rng.choice([' pm', 'pm', ' p.m.', ' \\text{pm}', '\\text{ p.m.}', ' PM', '\\text{ PM}', ' P.M.'])
        t3 = rng.choice(['%d', '%02d']) % h3 + ':' + txt.split(':', 1)[1]
        cs.append(['norm', dict(s=t3 + pm, expect=[[parts(h3), parts(h3 + 12)]])])
        cs.append(['norm', dict(s='%d%s' % (h3, pm), expect=[[str(h3), str(h3 + 12)]])])
        cs.append(['norm', dict(s='%d%s' % (h3, rng.choice([' am', ' a.m.', '\\text{ am}', ' \\text{a.m.}'])), expect=[str(h3)])])
        if rng.random() < .3:
            h4 = rng.randint(13, 23)
            cs.append(['norm', dict(s='%d:%s%s' % (h4, txt.split(':', 1)[1], pm), expect=[[parts(h4 - 12), parts(h4)]])])
            cs.append(['norm', dict(s='%d%s' % (h4, pm), expect=[[str(h4 - 12), str(h4)]])])
            cs.append(eq(t3 + pm, '%d:%s' % (h3 + 12, txt.split(':', 1)[1]), True, '24-hour reading'))
            cs.append(eq(t3 + pm, '%d:%s am' % (h3, txt.split(':', 1)[1]), True, '12-hour reading'))
            cs.append(eq(t3 + pm, '%d:%s' % ((h3 + 1) % 12 + 1, txt.split(':', 1)[1]), False, 'another time'))
    return cs


def gen_P19(rng, tier):
    cs = []

    def case(script, q='What is $x$?', a='5', pos=(), **kw):
        mx = kw['max_try'] if 'max_try' in kw else pos[1] if len(pos) > 1 else 5
        exp, calls = None, 0
        import re
        for i in range(mx):
            r = script[i] if i < len(script) else None
            calls += 1
            if isinstance(r, str):
                k = r.find('Type:')
                if k >= 0:
                    exp = r[k + 5:].lstrip().split('\n')[0]
                    break
        inner = a
        if a.startswith('$') and a.endswith('$') and a.count('$') == 2:
            w = a
        else:
            w = '$' + a.replace('$', '') + '$'
        cs.append(['llm', dict(script=script, question=q, answer=a, pos=list(pos), kw=kw, expect=exp, calls=calls, wrapped=w)])
    BAD = ['', 'no idea', 'type: Set', 'The answer', None, ['none'], ['int'], ['empty'], ['bytes'], ['list'], 'Type', 'TYPE: Set']
    GOOD = ['Type: Real', 'Type:Set', 'Reasoning...\nType: Interval(s)\nDone', 'x Type:   Vector, Set', 'Type: Complex\nType: Set', '**Type: Function**', 'Type:\n Others\nbye', 'Answer. Type: Real. ',
            'Type: Équation (x, y)', 'Type: a Type: b', 'Type: [Set]']
    Qs = ['What is $x$?', 'Find {all} roots of $x^2=1$.', 'line\nbreak', '50% of 3', 'Was ist √2?', '']
    As = ['5', '$5$', '$x$ or $y$', '$$5$$', '5$', '$5', '\\frac{1}{2}', '(0, 2)', '$(0,2)$', 'a$b$c', '{x}', '$\\$5$', '$x$']
    for g in GOOD:
        for n in range(0, 6):
            case([rng.choice(BAD) for _ in range(n)] + [g], rng.choice(Qs), rng.choice(As))
    for mx in (0, 1, 2, 3, 5, 8):
        for pt in (1, 2):
            case([None] * 10, rng.choice(Qs), rng.choice(As), prompt_type=pt, max_try=mx)
            case([rng.choice(BAD) for _ in range(10)], rng.choice(Qs), rng.choice(As), prompt_type=pt, max_try=mx)
            case([rng.choice(BAD) for _ in range(max(mx - 1, 0))] + [rng.choice(GOOD)], rng.choice(Qs), rng.choice(As), pos=(pt,), max_try=mx)
            case([rng.choice(BAD) for _ in range(mx)] + [rng.choice(GOOD)], rng.choice(Qs), rng.choice(As), pos=(pt, mx))
    for q in Qs:
        for a in As:
            case([rng.choice(GOOD)], q, a, prompt_type=rng.choice([1, 2]))
    for _ in range(N(tier, 100, 3000)):
        case([rng.choice(BAD + GOOD[:3]) for _ in range(rng.randint(0, 8))], rng.choice(Qs), rng.choice(As), max_try=rng.randint(0, 7), prompt_type=rng.choice([1, 2]))
    return cs


GEN = {k[4:]: v for k, v in list(globals().items()) if k.startswith('gen_')}
