"""rx_test.py [N] [SEED]: the symbolic regex engine (pyvc/rx.py) against CPython's re: random patterns and texts with chunks, each
concretised at random; what the engine answers, concretised the same way, must be what re answers."""
import os
import random
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from pyvc import rx
from pyvc.rx import *
from pyvc.text import *


class FakeI:
    """Follows one concretisation."""
    def __init__(self, val):
        self.val = val

    def ev(self, c):
        if isinstance(c, bool):
            return c
        s = z3.simplify(z3.substitute(c, *[(z3.Int('len:' + k), z3.IntVal(len(v))) for k, v in self.val.items()]))
        assert z3.is_true(s) or z3.is_false(s), s
        return z3.is_true(s)

    def choose(self, c):
        return self.ev(c)

    def assume(self, c):
        assert self.ev(c), c


def conc(t, val):
    if isinstance(t, str):
        return t
    out = ''
    for p in t.pieces:
        if isinstance(p, str):
            out += p
        elif isinstance(p, SubCell):
            s = val[p.parent.key]
            k = re.search(r'\[(-?\d+)\]$', p.key)
            if k:
                out += s[int(k.group(1))]
            else:
                a, b = re.search(r'\[(\d+):-(\d+)\]$', p.key).groups()
                out += s[int(a):len(s) - int(b)]
        else:
            out += val[p.key]
    return out


UNITS = ['cm', 'in', 'second']
REAL = [r"(?<!\w)i(?!\w)|(?<=\d)i", r"^-?[0-9]+.?/", r"(\d+) +(\d+/\d+)", r"(\d+) *(\\frac(\d|{\d+})(\d|{\d+}))", r"\d{1,3}(?:, ?\d{3})+",
        r"^(\d{1,2})\s*((?:\\text\{\s*[ap]\.?m\.?\s*\})|(?:[ap]\.?m\.?))$", r"^(\d{1,2}):(\d{2})(?::(\d{2}))?\s*((?:\\text\{\s*[ap]\.?m\.?\s*\})|(?:[ap]\.?m\.?))?$",
        r"^\\\s*(text|mbox){\s*(?P<text>.+?)}$", r"^\\{(.*)\|(.*)\\}$", r"\{,\}", r"^(\d+)_(?:(\d)|\{(\d+)\})$", r",? *((\\text\{ *(and|or) *\})| (and|or) )",
        r"[a-zA-Z]+\s*\\in", r"(\\)+text\{[a-zA-Z ]+(\^\d|\^\{\d+\})? *\} *(\^\d|\^\{\d+\})?", r"\^ *(?:\{ *\\circ *\}|\\circ)", r"(\d*)(\.\d+)? *\^ *(?:\{ *\\circ *\}|\\circ)",
        "- *", r"^\\begin\{[a-zA-Z]?matrix\}(.*?)\\end\{[a-zA-Z]?matrix\}$", r"\d+", r"\d", r"[a-z]+?", r"\bi\b", r"\s*$"]
for u in UNITS:
    REAL += [r"(\\)+text{{\s*{unit}(es|s)? *(\^\d|\^{{\d+}})?}} *(\^\d|\^{{\d+}})?".format(unit=u), r" *{unit}(es|s)? *(\^\d|\^{{\d+}}+)?".format(unit=u), r" +{unit}(es|s)? *(\^\d|\^{{\d+}}+)?".format(unit=u)]
LITS = ['\\text{', '}', ' ', '  ', '-', '3', '12', ',', ', ', '_', '{', '/', '\\frac', '^', '\\circ', 'cm', 'second', 's', 'in', ':', 'pm', 'p.m.', '\\begin{pmatrix}', '\\end{pmatrix}', 'i', 'x', '|',
        '\\{', '\\}', ' and ', '.', '{,}', '', '\n', 'es', '^2', '{12}', '\\in']
ALPH = [DIGITS, DIGITS, DIGITS, frozenset('abx'), frozenset(' '), frozenset('ab'), DIGITS | frozenset('.'), DIGITS | frozenset('ab'), frozenset('a1 ')]


def rand_pat(r, d=0):
    k = r.randrange(10)
    if d > 2 or k < 3:
        return r.choice(['a', 'b', '1', r'\d', '[ab]', '[^a]', '.', ' ', r'\w', 'x', r'\s'])
    if k < 6:
        return rand_pat(r, d + 1) + rand_pat(r, d + 1)
    if k == 6:
        return '(%s|%s)' % (rand_pat(r, d + 1), rand_pat(r, d + 1))
    if k == 7:
        return '(%s)' % rand_pat(r, d + 1)
    return '(?:%s)%s' % (rand_pat(r, d + 1), r.choice(['*', '+', '?', '{2}', '{1,3}', '*?', '+?', '??']))


def main(n, seed):
    r = random.Random(seed)
    stat = dict(same=0, unsupported=0, matched=0)
    why = {}
    for it in range(n):
        pat = r.choice(REAL) if r.random() < .6 else rand_pat(r)
        flags = r.choice([0, 0, re.S, re.I])
        try:
            cp = re.compile(pat, flags)
            compile_pattern(pat, flags)
        except (re.error, Unsupported):
            continue
        pieces, chunks = [], []
        lits = LITS if r.random() < .7 else ['a', 'b', '1', ' ', 'x']
        for j in range(r.randrange(1, 6)):
            if r.random() < .45:
                lo = r.choice([0, 0, 1, 1, 1, 2, 3])
                hi = r.choice([None, None, None, lo, lo + 1, lo + 2])
                c = Chunk('c%d' % j, r.choice(ALPH), lo, hi)
                if c.hi == 0:
                    continue
                pieces.append(c)
                chunks.append(c)
            else:
                pieces.append(r.choice(lits))
        t = TextV.make(pieces)
        for _ in range(4):
            val = {c.key: ''.join(r.choice(sorted(c.alpha)) for _ in range(r.randint(c.lo, min(c.hi if c.hi is not None else c.lo + 9, c.lo + 9)))) for c in chunks}
            s = conc(t, val)
            I = FakeI(val)
            f = r.choice(['search', 'match', 'fullmatch', 'sub'])
            repl = r.choice(['', '<>', r'\g<0>;'] + ([r'(\1)'] if cp.groups else []))
            try:
                if f == 'sub':
                    got = conc(sub(I, compile_pattern(pat, flags), repl, t)[0], val)
                    want = cp.sub(repl, s)
                else:
                    m = search(I, compile_pattern(pat, flags), t, f)
                    w = getattr(cp, f)(s)
                    got = None if m is None else [m.group(I, k) for k in range(cp.groups + 1)]
                    got = None if got is None else [x if x is None else conc(x, val) for x in got]
                    want = None if w is None else [w.group(k) for k in range(cp.groups + 1)]
            except Unsupported as e:
                stat['unsupported'] += 1
                k = str(e)[:50]
                why[k] = why.get(k, 0) + 1
                continue
            if got != want:
                print('DIFFERENT %r flags=%s %s %r on %r = %r: got %r, re says %r' % (pat, flags, f, repl, t, s, got, want))
                return 1
            stat['same'] += 1
            stat['matched'] += want is not None and want != s
    print(stat, why)
    return 0


if __name__ == '__main__':
    sys.exit(main(int(sys.argv[1]) if len(sys.argv) > 1 else 20000, int(sys.argv[2]) if len(sys.argv) > 2 else 1))
