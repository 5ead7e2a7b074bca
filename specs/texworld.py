"""The parse trees, expressions and external names that the contracts of latex2sympy.py speak about."""
import functools
from fractions import Fraction

import z3

from pyvc.values import *
from pyvc import engine as E
from pyvc.engine import rv, zb, band, bor, bnot
from pyvc.world import World
from pyvc.grammar import Grammar
from pyvc.text import TextV, Chunk, BytesV, DIGITS, WS

M = 'latex2sympy.latex2sympy2'
ASSUMED = ['the generated ANTLR parser yields the trees of PS.g4 with the accessors of gen/PSParser.py; rules met inside a production are arbitrary trees',
           'sympy operations denote their mathematical functions (Add, Mul, Pow, MatAdd, MatMul, ... with or without evaluate=False); doit(), as_explicit() keep the value',
           'values are taken in the reals at an arbitrary point; INV, POW, LN and the named functions are uninterpreted (only congruence is used)']
LETTERS = frozenset('abcdfghijklmnopqrstuvwxyzABCDFGHIJKLMNOPQRSTUVWXYZ')
CONTRACT = {'convert_relation': ('relation',), 'convert_expr': ('expr',), 'convert_add': ('additive',), 'convert_mp': ('mp', 'mp_nofunc'),
            'convert_unary': ('unary', 'unary_nofunc'), 'convert_postfix': ('postfix', 'postfix_nofunc'), 'convert_exp': ('exp', 'exp_nofunc'),
            'convert_comp': ('comp', 'comp_nofunc'), 'convert_atom': ('atom',), 'convert_frac': ('frac',), 'convert_binom': ('binom',),
            'convert_matrix': ('matrix', 'det'), 'convert_func': ('func',)}
PASS = {'func_single_arg': 'expr', 'func_single_arg_noparens': 'mp_nofunc', 'group': 'expr', 'norm_group': None}
MATRULES = {'relation', 'expr', 'additive', 'mp', 'mp_nofunc', 'unary', 'unary_nofunc', 'postfix', 'postfix_nofunc', 'exp', 'exp_nofunc', 'comp', 'comp_nofunc', 'func'}


@functools.lru_cache(None)
def grammar(root):
    return Grammar(root)


def real(n):
    if isinstance(n, Fraction):
        return z3.RealVal('%d/%d' % (n.numerator, n.denominator))
    if isinstance(n, bool):
        return z3.RealVal(int(n))
    if isinstance(n, int):
        return z3.RealVal(n)
    if isinstance(n, float):
        f = Fraction(repr(n))
        return z3.RealVal('%d/%d' % (f.numerator, f.denominator))
    if z3.is_int(n):
        return z3.ToReal(n)
    return n


def num_of(t):
    t = z3.simplify(t)
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return None


def UFR(name, *ts):
    return z3.Function(name, *([REAL] * (len(ts) + 1)))(*ts)


def mk_pow(b, e):
    nb, ne = num_of(b), num_of(e)
    if nb is not None and ne is not None and ne.denominator == 1 and abs(ne) <= 20 and (nb != 0 or ne > 0):
        return real(nb ** int(ne))
    if ne is not None:
        e = real(ne)
    return UFR('POW', b, e)


def mk_ln(a):
    if a.eq(z3.Real('E')):
        return z3.RealVal(1)
    return UFR('LN', a)


# ---------------------------------------------------------------- matrix polynomials: {word: coefficient}

def pkey(p):
    """A printable key of a polynomial or structure."""
    if isinstance(p, dict):
        return '{%s}' % ','.join('%s*%s' % (z3.simplify(c).sexpr(), '.'.join(akey(a) for a in w)) for w, c in sorted(p.items(), key=lambda x: str(x[0])))
    return akey(p)


def akey(a):
    if isinstance(a, str):
        return a
    if isinstance(a, tuple):
        return '(%s)' % ' '.join(akey(x) for x in a)
    if isinstance(a, dict):
        return pkey(a)
    if is_z3(a):
        return z3.simplify(a).sexpr()
    return repr(a)


class Frozen(dict):
    """A matrix polynomial as a part of a word."""
    def __hash__(self):
        return hash(pkey(self))

    def __eq__(self, o):
        return isinstance(o, dict) and pkey(self) == pkey(o)


def padd(p, q):
    r = dict(p)
    for w, c in q.items():
        r[w] = r[w] + c if w in r else c
    return r


def pmul(p, q):
    r = {}
    for a, c in p.items():
        for b, d in q.items():
            w = a + b
            r[w] = r[w] + c * d if w in r else c * d
    return r


def pscale(k, p):
    return {w: k * c for w, c in p.items()}


def patom(*a):
    return {(tuple(a) if len(a) > 1 else a[0],): z3.RealVal(1)}


def ptrans(p):
    def t(a):
        if isinstance(a, tuple) and a and a[0] == 'T':
            return a[1]
        return ('T', a)
    return {tuple(t(a) for a in reversed(w)): c for w, c in p.items()}


def psubst(p, S):
    def a(x):
        if isinstance(x, Frozen):
            return Frozen(psubst(x, S))
        if isinstance(x, dict):
            return psubst(x, S)
        if isinstance(x, tuple):
            return tuple(a(y) for y in x)
        if is_z3(x):
            return z3.simplify(S.f(x))
        return x
    return {tuple(a(x) for x in w): S.f(c) for w, c in p.items()}


class EV:
    """A sympy expression: kind 'S' scalar (val: Real), 'M' matrix (val: polynomial), 'J' neither."""
    def __init__(self, kind, val, shape=None, name=None, explicit=None):
        self.kind, self.val, self.shape, self.name, self.explicit = kind, val, shape, name, explicit
        self.excl = set()

    def sym_subst(self, S):
        if self.kind == 'S':
            return EV('S', S.f(self.val))
        return EV(self.kind, psubst(self.val, S), None, None, self.explicit)

    def __repr__(self):
        return 'EV<%s %s>' % (self.kind, pkey(self.val) if isinstance(self.val, dict) else self.val)


class RelV:
    def __init__(self, op, l, r):
        self.op, self.l, self.r = op, l, r

    def __repr__(self):
        return 'RelV<%s %r %r>' % (self.op, self.l, self.r)


class AppV:
    """An object known by the operation that made it."""
    def __init__(self, name, args):
        self.name, self.args = name, tuple(args)

    def __repr__(self):
        return 'AppV<%s%r>' % (self.name, self.args)


class FuncOf:
    def __init__(self, ev):
        self.ev = ev


class ValV:
    """The value given for a variable."""
    def __init__(self, key):
        self.key = key


class TypeOf:
    def __init__(self, v):
        self.v = v


class DeclV:
    """A declared setting: variances, var, VARIABLE_VALUES."""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'DeclV<%s>' % self.name


class TokV:
    """A token."""
    def __init__(self, types, text, name):
        self.types, self._text, self.name = types, text, name


class TermV:
    """A terminal node."""
    def __init__(self, tok):
        self.tok = tok


class StreamV:
    pass


class CtxV:
    """A parse-tree node; alts: the productions still possible."""
    def __init__(self, w, rule, name, alts=None):
        self.w, self.rule, self.name = w, rule, name
        self._alts = alts
        self.kids = {}
        self.open = False
        self.ev = None
        self.startv = self.stopv = None

    def __repr__(self):
        return 'Ctx<%s %s>' % (self.rule, self.name)

    @property
    def alts(self):
        if self._alts is None:
            a = self.w.g.alts(self.rule)
            f = self.w.restrict.get(self.rule)
            self._alts = [x for x in a if f(x)] if f else list(a)
        return self._alts

    def split(self, sig):
        """Fork over the values of sig(alternative); returns the value on this path."""
        groups = {}
        for a in self.alts:
            groups.setdefault(sig(a), []).append(a)
        ks = list(groups)
        if len(ks) == 0:
            raise PathEnd()
        i = 0 if len(ks) == 1 else self.w.I.choose_n([True] * len(ks))
        self._alts = groups[ks[i]]
        return ks[i]

    def n(self, name):
        return self.split(lambda a: sum(1 for k, x, l in a if x == name))

    def has(self, *names):
        return any(self.n(x) > 0 for x in names)

    def child(self, name, i=0):
        """The i-th child of that name."""
        key = (name, i)
        if key not in self.kids:
            if name[0].isupper():
                c = TermV(self.w.token(self, name, i))
            else:
                c = CtxV(self.w, name, '%s.%s%d' % (self.name, name, i))
            self.kids[key] = c
        return self.kids[key]

    def label(self, lab):
        def sig(a):
            for j, (k, x, l) in enumerate(a):
                if l == lab:
                    return (k, x, sum(1 for kk, y, ll in a[:j] if y == x))
            return None
        s = self.split(sig)
        if s is None:
            return None
        c = self.child(s[1], s[2])
        return c.tok if isinstance(c, TermV) else c

    def seq(self):
        """The children, when the production is decided up to equal sequences."""
        return self.split(lambda a: a)


class TexWorld(World):
    def __init__(self, root, mode='S'):
        World.__init__(self)
        self.g = grammar(root)
        self.mode = mode               # 'S': scalars only; 'M': matrices possible
        self.restrict = {}
        self.assumed = set(ASSUMED)
        self.special = None            # kinds of results of postfix
        self.msub = {}
        self.settings = {n: DeclV(n) for n in ('variances', 'var', 'VARIABLE_VALUES')}
        self.nargs = (1, 2, 3)
        self.EMPTY = EV('S', z3.Real('EMPTYSET'), ('EmptySet',))
        self.junk = self.anon = 0
        self.use_contracts = True
        self.nocontract = set()
        self.allow_rec = set()

    def background(self):
        return []

    # ------------------------------------------------------------ denotations
    def den(self, c):
        """The object a tree stands for."""
        if c.rule in PASS and PASS[c.rule]:
            return self.den(c.child(PASS[c.rule]))
        if c.ev is None:
            k = 'S'
            if self.mode == 'M' and c.rule in MATRULES:
                k = 'SM'[self.I.choose_n([True, True])]
            elif c.rule in ('matrix', 'det'):
                k = 'M'
            c.ev = self.opaque(k, 'v:' + c.name)
            if k == 'M':
                self.I.ex.log.append(('matrix', c.name))
        return c.ev

    def opaque(self, k, name):
        if k == 'S':
            return EV('S', z3.Real(name), None, name)
        return EV('M', patom(name), None, name)

    def num(self, t):
        return EV('S', t, ('Num',))

    def to_ev(self, v):
        if isinstance(v, EV):
            return v
        if isinstance(v, bool):
            return None
        if isinstance(v, (int, float, Fraction)):
            return self.num(real(v))
        if is_z3(v) and not z3.is_bool(v):
            return self.num(real(v))
        if isinstance(v, ValV):
            return EV('S', z3.Real('value:' + v.key), None, 'value:' + v.key)
        if isinstance(v, AppV) and v.name == 'name':
            return self.symbol(v.args[0], True)
        return None

    def bad(self, why):
        self.I.taint(why)
        self.junk += 1
        return EV('S', self.I.fresh(REAL, 'unmodelled'), ('other',))

    def is_shape(self, ev, s):
        """Is this scalar an Add / Mul / Num / Sym / Pow?"""
        if ev.shape is not None:
            return ev.shape[0] == s
        if s in ev.excl:
            return False
        b = z3.Bool('is%s:%s' % (s, ev.name)) if ev.name else self.I.fresh(BOOL, 'is' + s)
        if self.I.choose(b):
            if not ev.name:
                self.anon += 1
                ev.name = 'anon%d' % self.anon
            if s in ('Add', 'Mul') and ev.kind == 'S':
                n = 2 + self.I.choose_n([True, True])
                args = [EV('S', z3.Real('%s.%s%d' % (ev.name, s, i)), None, '%s.%s%d' % (ev.name, s, i)) for i in range(n)]
                for a in args:
                    if s == 'Add':
                        a.excl.add('Add')
                t = args[0].val
                for a in args[1:]:
                    t = t + a.val if s == 'Add' else t * a.val
                self.I.assume(ev.val == t)
                ev.shape = (s, args)
            elif s in ('MatAdd', 'MatMul'):
                if s == 'MatAdd':
                    n = 2 + self.I.choose_n([True, True])
                    args = [self.opaque('M', '%s.a%d' % (ev.name, i)) for i in range(n)]
                    p = {}
                    for a in args:
                        p = padd(p, a.val)
                else:
                    f = self.I.choose_n([True, True, True])
                    args = [[self.opaque('S', ev.name + '.k'), self.opaque('M', ev.name + '.m0')],
                            [self.opaque('M', ev.name + '.m0'), self.opaque('M', ev.name + '.m1')],
                            [self.opaque('S', ev.name + '.k'), self.opaque('M', ev.name + '.m0'), self.opaque('M', ev.name + '.m1')]][f]
                    p = {(): z3.RealVal(1)}
                    for a in args:
                        p = pmul(p, a.val if a.kind == 'M' else {(): a.val})
                for a in args:
                    if a.kind == 'M':
                        a.excl |= {s}
                self.msub[ev.name] = p
                ev.shape = (s, args)
                ev.explicit = False
            elif s == 'Pow':
                b_, e_ = self.opaque('S', ev.name + '.base'), self.opaque('S', ev.name + '.exp')
                self.I.assume(ev.val == mk_pow(b_.val, e_.val))
                ev.shape = ('Pow', [b_, e_])
            elif s == 'Sym':
                ev.shape = ('Sym', TextV([Chunk('name:' + str(ev.name), None, 1)]))
            else:
                ev.shape = (s, [])
            return True
        ev.excl.add(s)
        return False

    def is_explicit(self, ev):
        if ev.explicit is None:
            if ev.shape is not None and ev.shape[0] in ('MatAdd', 'MatMul'):
                ev.explicit = False
            else:
                ev.explicit = self.I.choose(z3.Bool('explicit:%s' % (ev.name or pkey(ev.val))))
        return ev.explicit

    # ------------------------------------------------------------ matrices: normal form under the known decompositions
    def pnorm(self, p):
        out = {}
        for w, c in p.items():
            q = {(): c}
            for a in w:
                q = pmul(q, self.anorm(a))
            out = padd(out, q)
        return out

    def anorm(self, a):
        if isinstance(a, str):
            if a in self.msub:
                return self.pnorm(self.msub[a])
            return {(a,): z3.RealVal(1)}
        if isinstance(a, tuple) and a[0] == 'T':
            inner = self.anorm(a[1])
            return ptrans(inner)
        if isinstance(a, tuple):
            return {(tuple(Frozen(self.pnorm(x)) if isinstance(x, dict) else x for x in a),): z3.RealVal(1)}
        return {(a,): z3.RealVal(1)}

    # ------------------------------------------------------------ trees
    def token(self, c, name, i):
        key = '%s.%s%d' % (c.name, name, i)
        lits = self.g.literals(name)
        num = self.g.toknum.get(name)
        if name == 'LETTER_NO_E':
            t = TextV([Chunk(key, LETTERS, 1, 1)])
        elif name in ('DIGIT',):
            t = TextV([Chunk(key, DIGITS, 1, 1)])
        elif name in ('GREEK_CMD', 'OTHER_SYMBOL_CMD'):
            ck = Chunk(key, LETTERS | frozenset('e"0123456789'), 2)      # every command of the grammar has at least two characters
            t = lambda: TextV(['\\', ck, ' ' if self.I.choose(z3.Bool('space:' + key)) else ''])
        elif name == 'VARIABLE':
            ck = Chunk('name:' + key, LETTERS | DIGITS | frozenset('e_{},\\ "'), 1)
            t = lambda: TextV(['\\variable{', ck, '}' + ('\\%' if self.I.choose(z3.Bool('percent:' + key)) else '')])
        elif name == 'DIFFERENTIAL':
            t = TextV(['d', Chunk('rest:' + key, None, 1)])
        elif name == 'SYMBOL':
            t = lambda: ['\\pi', '\\partial', '\\infty', '\\infty\\%', '\\$\\infty', '\\emptyset'][self.I.choose_n([z3.Const('symtext:' + key, INT) == j for j in range(6)])]
        elif lits:
            t = (lambda: lits[self.I.choose_n([z3.Const('littext:' + key, INT) == j for j in range(len(lits))])]) if len(lits) > 1 else lits[0]
        else:
            t = TextV([Chunk(key, None, 1)])
        return TokV(num, t, key)

    def tok_text(self, t):
        if callable(t._text):
            t._text = t._text()
        return t._text

    def start_of(self, c, stop=False):
        """The first (last) token of a tree."""
        cur = c.stopv if stop else c.startv
        if cur is not None:
            return cur
        if c.rule in ('func_normal_single_arg', 'func_normal_multi_arg', 'func_normal_functions_single_arg', 'func_normal_functions_multi_arg',
                      'func_operator_names_single_arg', 'func_operator_names_multi_arg', 'accent', 'accent_symbol', 'func'):
            s = c.split(lambda a: (a[-1] if stop else a[0])[:2])
            if s[0] == 'lit':
                r = TokV(None, s[1], c.name + '.lit')
            elif s[0] == 'rule':
                r = self.start_of(c.child(s[1], 0 if not stop else c.n(s[1]) - 1), stop)
            else:
                r = c.child(s[1], 0 if not stop else c.n(s[1]) - 1).tok
        else:
            nm = '%s.%s' % (c.name, 'stop' if stop else 'start')
            r = TokV(z3.Int('type:' + nm), TextV([Chunk(nm, None, 1)]), nm)
        if stop:
            c.stopv = r
        else:
            c.startv = r
        return r

    def text_of(self, c):
        if isinstance(c, TermV):
            return self.tok_text(c.tok)
        if c.rule == 'number':
            return self.number_text(c)
        if c.rule in ('e_notation', 'percent_number'):
            seq = c.seq()
            out, seen = [], {}
            for k, n, l in seq:
                i = seen.get(n, 0)
                seen[n] = i + 1
                if k == 'lit':
                    out.append(n)
                else:
                    out.append(self.text_of(c.child(n, i)))
            return TextV.make(out)
        if c.rule in ('accent_symbol', 'func_operator_names_single_arg', 'func_operator_names_multi_arg', 'func_normal_functions_single_arg', 'func_normal_functions_multi_arg'):
            return self.tok_text(self.start_of(c))
        if c.rule in ('func_multi_arg', 'func_common_args'):
            return ArgText(c)
        if c.rule == 'func_multi_arg_noparens':
            return ArgText(c)
        return TextV([Chunk('text:' + c.name, None, 1)])

    def number_text(self, c):
        """DIGIT+ (',' DDD)* ('.' DIGIT+)? | '.' DIGIT+ with opaque digits."""
        if not hasattr(c, 'ntext'):
            f = self.I.choose_n([z3.Const('numform:' + c.name, INT) == j for j in range(7)])
            d = lambda x, lo=1, hi=None: Chunk(c.name + '.' + x, DIGITS, lo, hi)
            c.ntext = TextV([[d('d')], [d('d'), '.', d('f')], [d('d'), ',', d('g', 3, 3)], [d('d'), ',', d('g', 3, 3), ',', d('h', 3, 3)],
                             [d('d'), ',', d('g', 3, 3), '.', d('f')], [d('d'), ',', d('g', 3, 3), ',', d('h', 3, 3), '.', d('f')], ['.', d('f')]][f])
        return c.ntext

    def dec(self, t):
        """The rational a decimal text denotes."""
        if isinstance(t, str):
            try:
                return self.num(real(Fraction(t)))
            except (ValueError, ZeroDivisionError):
                self.I.raise_(TypeError, 'Rational')
        for p in t.pieces:
            if isinstance(p, str) and set(p) - set('0123456789.Ee+-'):
                self.I.raise_(TypeError, 'Rational of %s' % t.key())
        if any(isinstance(p, Chunk) and (p.alpha is None or p.alpha - DIGITS) for p in t.pieces):
            self.I.may_raise('Rational', z3.Bool('notnumber:' + t.key()))
        return self.num(z3.Real('DEC:' + t.key()))

    def symbol(self, t, real_ok):
        k = t if isinstance(t, str) else t.key()
        return EV('S', z3.Real('SYM:' + k + ('' if real_ok else '|other assumptions')), ('Sym', t), None)

    # ------------------------------------------------------------ hooks: attributes
    def module_global(self, mod, name):
        if mod != M:
            return None
        if name in self.settings:
            return self.settings[name]
        if name == 'is_real':
            return Ob(z3.Const('is_real', U), 'setting')
        if name == 'frac_type':
            return TextV([Chunk('frac_type', None, 1)])
        return None

    def ext_attr(self, dotted, name):
        full = dotted + '.' + name
        if dotted in ('sympy.S',) and name == 'Half' or full == 'sympy.Half':
            return self.num(z3.RealVal('1/2'))
        if full in ('sympy.S.EmptySet', 'sympy.EmptySet'):
            return self.EMPTY
        if full in ('sympy.pi', 'sympy.S.Pi'):
            return EV('S', z3.Real('PI'), ('const',))
        if full in ('sympy.oo', 'sympy.S.Infinity'):
            return EV('S', z3.Real('OO'), ('Num',))
        if full in ('sympy.I', 'sympy.S.ImaginaryUnit'):
            return EV('S', z3.Real('IMAG'), ('const',))
        if full in ('sympy.E', 'sympy.S.Exp1'):
            return EV('S', z3.Real('E'), ('const',))
        if full in ('sympy.S.One', 'sympy.S.Zero', 'sympy.S.NegativeOne'):
            return self.num(z3.RealVal({'One': 1, 'Zero': 0, 'NegativeOne': -1}[name]))
        if dotted.endswith('PSLexer') or dotted.endswith('PSParser'):
            if name in self.g.toknum:
                return self.g.toknum[name]
        return None

    def accessor(self, c, what, target, multi):
        def call(I, args, kw):
            i = args[0] if args else kw.get('i')
            n = c.n(target)
            if not multi:
                if args or kw:
                    I.raise_(TypeError, 'accessor argument')
                return c.child(target, 0) if n else None
            if i is None:
                return I.new_list([c.child(target, j) for j in range(n)])
            if not isinstance(i, int):
                raise Unsupported('accessor index')
            return c.child(target, i) if 0 <= i < n else None
        return HookV(call, 'accessor')

    def getattr(self, o, name):
        I = self.I
        if isinstance(o, CtxV):
            acc = self.g.acc[o.rule]
            if name in acc:
                return self.accessor(o, *acc[name])
            if name in self.g.labels[o.rule]:
                r = o.label(name)
                return UNDEF if r is None else r
            if name == 'start':
                return self.start_of(o)
            if name == 'stop':
                return self.start_of(o, True)
            if name == 'getText':
                return HookV(lambda I, a, k: self.text_of(o), 'getText')
            if name == 'getSourceInterval':
                n = z3.Int('ntokens:' + o.name)
                a = z3.Int('first:' + o.name)
                I.assume(n >= 1)
                I.assume((n == 1) == z3.Bool('same:%s' % o.name))
                return HookV(lambda I, x, k: (a, a + n - 1), 'getSourceInterval')
            if name in ('getChildCount', 'getChild', 'children', 'getChildren', 'parentCtx', 'parser', 'accept'):
                raise Unsupported('tree attribute %s' % name)
            I.raise_(AttributeError, '%s has no %s' % (o.rule, name))
        if isinstance(o, TermV):
            if name == 'getText':
                return HookV(lambda I, a, k: self.tok_text(o.tok), 'getText')
            if name in ('symbol', 'getSymbol'):
                return o.tok if name == 'symbol' else HookV(lambda I, a, k: o.tok, 'getSymbol')
            raise Unsupported('terminal attribute %s' % name)
        if isinstance(o, TokV):
            if name == 'text':
                return self.tok_text(o)
            if name == 'type':
                return o.types
            if name in ('start', 'stop', 'tokenIndex'):
                return z3.Int('%s:%s' % (name, o.name))
            if name == 'getInputStream':
                return HookV(lambda I, a, k: StreamV(), 'stream')
            raise Unsupported('token attribute %s' % name)
        if isinstance(o, StreamV):
            if name == 'getText':
                return HookV(lambda I, a, k: self.stream_text(a), 'getText')
            raise Unsupported('stream attribute')
        if isinstance(o, ClassV) and o.name in ('PSLexer', 'PSParser') and name in self.g.toknum:
            return self.g.toknum[name]
        if isinstance(o, FuncOf):
            if name == 'is_Number':
                return o.ev.kind == 'S' and self.is_shape(o.ev, 'Num')
            if name in ('is_Symbol', 'is_Add', 'is_Mul', 'is_Pow'):
                return o.ev.kind == 'S' and self.is_shape(o.ev, {'is_Symbol': 'Sym'}.get(name, name[3:]))
            I.taint('func.' + name)
            return Ob(I.fresh(U, 'funcattr'))
        if isinstance(o, TypeOf):
            if name == '__module__':
                return TypeOf(('module', o.v))
            if isinstance(o.v, tuple):
                return MethV(o, name)
            raise Unsupported('type attribute')
        if isinstance(o, EV):
            return self.ev_attr(o, name)
        if isinstance(o, RelV):
            if name == 'is_Matrix':
                return False
            return MethV(o, name)
        if isinstance(o, AppV):
            return MethV(o, name)
        if isinstance(o, (DeclV, ValV, BytesV)):
            return MethV(o, name)
        if isinstance(o, ArgText):
            return MethV(o, name)
        return None

    def ev_attr(self, o, name):
        I = self.I
        if o.kind == 'J':
            I.taint('attribute of an unmodelled object')
            return MethV(o, name)
        if o.shape == ('EmptySet',):
            if name == 'is_Matrix':
                I.raise_(AttributeError, name) if False else None
                return False
        if name == 'is_Matrix':
            return o.kind == 'M'
        if name == 'is_MatrixExpr':
            return o.kind == 'M' and not self.is_explicit(o)
        if name in ('is_MatAdd', 'is_MatMul'):
            if o.kind == 'M' and o.name and len(o.val) == 1 and o.val.keys() == {(o.name,)} or o.shape is not None:
                if self.is_shape(o, name[3:]):
                    return True
            I.raise_(AttributeError, name)
        if name in ('is_Add', 'is_Mul', 'is_Pow', 'is_Symbol', 'is_Number', 'is_number', 'is_symbol'):
            if o.kind == 'M':
                if self.is_explicit(o):
                    I.raise_(AttributeError, name)
                return False
            if name == 'is_number':
                I.taint('is_number')
                return I.fresh(BOOL, 'is_number')
            return self.is_shape(o, {'is_Symbol': 'Sym', 'is_symbol': 'Sym', 'is_Number': 'Num'}.get(name, name[3:]))
        if name == 'func':
            return FuncOf(o)
        if name == 'args':
            if o.shape is not None and o.shape[0] in ('Add', 'Mul', 'MatAdd', 'MatMul', 'Pow'):
                return tuple(o.shape[1])
            I.taint('args of an unknown expression')
            return SeqV('tuple', z3.Int('nargs'), lambda i: self.bad('args'))
        if name in ('base', 'exp') and o.kind == 'S':
            if not self.is_shape(o, 'Pow'):
                I.raise_(AttributeError, name)
            return o.shape[1][0 if name == 'base' else 1]
        if name == 'name' and o.kind == 'S':
            if not self.is_shape(o, 'Sym'):
                I.raise_(AttributeError, 'name')
            return o.shape[1]
        if name == 'T':
            if o.kind == 'M':
                return EV('M', ptrans(self.pnorm(o.val)))
            I.raise_(AttributeError, 'T')
        if name in ('cols', 'rows', 'shape') and o.kind == 'M':
            if name == 'shape':
                return (self.dim(o, 'rows'), self.dim(o, 'cols'))
            return self.dim(o, name)
        if o.kind == 'M' and not self.is_explicit(o) and name in EXPLICIT_ONLY:
            I.raise_(AttributeError, 'MatrixExpr has no %s' % name)
        if o.kind == 'S' and (name in EXPLICIT_ONLY or name in ('as_explicit', 'det', 'inv')):
            I.raise_(AttributeError, name)
        if o.kind == 'M' and name == 'as_explicit' and self.is_explicit(o):
            pass
        return MethV(o, name)

    def dim(self, o, what):
        return z3.Int('%s(%s)' % (what, pkey(self.pnorm(o.val))))

    def stream_text(self, a):
        names = []
        for x, pre in zip(a, ('start:', 'stop:')):
            s = str(z3.simplify(x)) if is_z3(x) else ''
            if not s.startswith(pre) and not s.startswith('start:') and not s.startswith('stop:'):
                raise Unsupported('stream text')
            names.append(s)
        a, b = names
        if a.startswith('start:') and b.startswith('stop:') and a.endswith('.start') and b.endswith('.stop') and a[6:-6] == b[5:-5]:
            return TextV([Chunk('text:' + a[6:-6], None, 1)])
        if a.startswith('start:') and b.startswith('stop:'):
            return TextV([Chunk('text from %s to %s' % (a, b), None, 1)])
        return TextV([Chunk('text from %s to %s' % (a, b), None, 0)])

    # ------------------------------------------------------------ hooks: values
    def truth(self, v):
        I = self.I
        if isinstance(v, EV):
            if v.kind == 'S' and (v.shape is None or v.shape[0] == 'Num'):
                if self.is_shape(v, 'Num'):
                    return v.val != 0
            return True
        if isinstance(v, RelV):
            I.raise_(TypeError, 'truth value of a relation')
        if isinstance(v, (CtxV, TermV, TokV)):
            return True
        if isinstance(v, DeclV):
            return z3.Bool('nonempty:' + v.name)
        if isinstance(v, AppV):
            I.taint('truth of %s' % v.name)
            return I.fresh(BOOL, 'truth')
        if isinstance(v, ValV):
            return z3.Bool('truth:' + v.key)
        return None

    def eq(self, a, b):
        I = self.I
        if isinstance(a, EV) or isinstance(b, EV):
            x, y = (a, b) if isinstance(a, EV) else (b, a)
            if y is None or isinstance(y, (str, TextV)):
                return False
            ye = self.to_ev(y)
            if ye is None:
                return False
            if ye is x:
                return True
            if x.kind != 'S' or ye.kind != 'S':
                I.taint('== of expressions')
                return I.fresh(BOOL, 'eq')
            nx, ny = self.is_shape(x, 'Num'), self.is_shape(ye, 'Num')
            if nx and ny:
                return x.val == ye.val
            if nx != ny:
                return False
            if x.shape is None and ye.shape is None and x.name and ye.name:
                # two parts of the text may be written alike: then they have the same value
                if x.name == ye.name:
                    return True
                b = z3.Bool('alike:%s:%s' % tuple(sorted((x.name, ye.name))))
                I.assume(z3.Implies(b, x.val == ye.val))
                return b
            I.taint('== of expressions')
            return I.fresh(BOOL, 'eq')
        if isinstance(a, TokV) and isinstance(b, TokV):
            if a is b:
                return True
            if a.name.endswith('.start') and b.name.endswith('.stop') and a.name[:-6] == b.name[:-5]:
                return z3.Bool('same:' + a.name[:-6])
            if b.name.endswith('.start') and a.name.endswith('.stop') and b.name[:-6] == a.name[:-5]:
                return z3.Bool('same:' + b.name[:-6])
            return False
        if isinstance(a, (CtxV, TermV)) or isinstance(b, (CtxV, TermV)):
            return a is b
        if isinstance(a, TypeOf) or isinstance(b, TypeOf):
            I.taint('comparison of types')
            return I.fresh(BOOL, 'types')
        if isinstance(a, (RelV, AppV, ValV, DeclV)) or isinstance(b, (RelV, AppV, ValV, DeclV)):
            if a is b:
                return True
            I.taint('== of objects')
            return I.fresh(BOOL, 'eq')
        return None

    def contains(self, x, c):
        if isinstance(c, DeclV):
            if getattr(self, 'no_decl', False) and c.name == 'var':
                return False
            k = x.key() if isinstance(x, TextV) else x if isinstance(x, str) else None
            if k is not None:
                return z3.Bool('declared:%s:%s' % (c.name, k))
            if isinstance(x, EV):
                return z3.Bool('declared:%s:%s' % (c.name, x.val if x.kind == 'S' else pkey(x.val)))
        return None

    def subscript(self, o, k):
        if isinstance(o, DeclV):
            kk = k.key() if isinstance(k, TextV) else k if isinstance(k, str) else None
            if o.name == 'VARIABLE_VALUES' and kk is not None:
                self.I.log('lookup', kk)
                b = z3.Bool('declared:VARIABLE_VALUES:' + kk)
                if not self.I.choose(b):
                    self.I.raise_(KeyError)
                return ValV(kk)
            if kk is not None:
                if not self.I.choose(z3.Bool('declared:%s:%s' % (o.name, kk))):
                    self.I.raise_(KeyError)
                return AppV('setting', (o.name, kk))
            return AppV('setting', (o.name, k))
        if isinstance(o, AppV):
            if o.name == 'shape' and isinstance(k, int):
                return AppV('dim', (o.args[0], k))
            if isinstance(k, int):
                return self.item(o, k)
        if isinstance(o, SeqV) and False:
            return None
        return None

    def item(self, o, k):
        if o.name == 'rref' and k == 0:
            return EV('M', patom('rref', o.args[0]))
        return AppV('item', (o, k))

    def set_item(self, o, k, v):
        if isinstance(o, DeclV):
            self.I.log('setting', o.name, k, v)
            return
        raise Unsupported('item assignment')

    def on_global_write(self, mod, name, v):
        self.I.log('global', name, v)

    def length(self, v):
        if isinstance(v, DeclV):
            n = z3.Int('size:' + v.name)
            self.I.assume(n >= 0)
            self.I.assume((n > 0) == z3.Bool('nonempty:' + v.name))
            return n
        if isinstance(v, EV):
            self.I.raise_(TypeError, 'len')
        return None

    def isinstance(self, v, t):
        I = self.I
        if isinstance(t, tuple):
            return None
        d = t.dotted if isinstance(t, ExtV) else None
        last = d.split('.')[-1] if d else None
        if isinstance(v, EV) and v.kind != 'J':
            if d is None:
                return False if isinstance(t, (BuiltinV, ClassV)) else None
            if v is self.EMPTY:
                return last in ('Set', 'Basic', 'EmptySet')
            if last in ('Expr',):
                return v.kind == 'S' or not self.is_explicit(v)
            if last == 'Basic':
                return v.kind == 'S' or not self.is_explicit(v)
            if last in ('Matrix', 'MatrixBase', 'MutableDenseMatrix', 'DenseMatrix'):
                return v.kind == 'M' and self.is_explicit(v)
            if last == 'MatrixExpr':
                return v.kind == 'M' and not self.is_explicit(v)
            if last in ('Symbol', 'Add', 'Mul', 'Pow', 'Number'):
                return v.kind == 'S' and self.is_shape(v, {'Symbol': 'Sym', 'Number': 'Num'}.get(last, last))
            if last in ('MatAdd', 'MatMul'):
                return v.kind == 'M' and bool(v.name) and self.is_shape(v, last)
            I.taint('isinstance ' + d)
            return I.fresh(BOOL, 'isinstance')
        if isinstance(v, ValV) and d:
            return z3.Bool('sympy value:' + v.key)
        if isinstance(v, (CtxV, TermV, RelV, AppV, DeclV)):
            if isinstance(t, (BuiltinV, ClassV)) and not isinstance(v, AppV):
                return False
            if isinstance(v, AppV) and isinstance(t, BuiltinV):
                return v.name.startswith(t.name + ':')
            if isinstance(v, (RelV, AppV)) and last in ('Expr', 'Matrix', 'Symbol', 'MatrixBase', 'MatrixExpr'):
                return False
            I.taint('isinstance')
            return I.fresh(BOOL, 'isinstance')
        return None

    def to_str(self, v):
        if isinstance(v, ValV):
            return TextV([Chunk('str(%s)' % v.key)])
        if isinstance(v, EV):
            if v.shape is not None and v.shape[0] == 'Sym':
                return v.shape[1]
            return TextV([Chunk('str(%s)' % (pkey(v.val) if isinstance(v.val, dict) else v.val))])
        return None

    # ------------------------------------------------------------ arithmetic
    def add(self, xs):
        xs = [self.to_ev(x) for x in xs]
        if any(x is None or x.kind == 'J' for x in xs):
            return self.bad('sum of unmodelled objects')
        if all(x.kind == 'S' for x in xs):
            t = z3.RealVal(0)
            for x in xs:
                t = x.val if t is not None and num_of(t) == 0 and not x is xs[-1] else t + x.val
            t = xs[0].val if xs else z3.RealVal(0)
            for x in xs[1:]:
                t = t + x.val
            return EV('S', t, ('Add', xs))
        if all(x.kind == 'M' for x in xs):
            p = {}
            for x in xs:
                p = padd(p, x.val)
            return EV('M', p)
        return self.bad('sum of a scalar and a matrix')

    def mul(self, xs):
        xs = [self.to_ev(x) for x in xs]
        if any(x is None or x.kind == 'J' for x in xs):
            return self.bad('product of unmodelled objects')
        if all(x.kind == 'S' for x in xs):
            t = xs[0].val if xs else z3.RealVal(1)
            for x in xs[1:]:
                t = t * x.val
            return EV('S', t, ('Mul', xs))
        p = {(): z3.RealVal(1)}
        for x in xs:
            p = pmul(p, x.val if x.kind == 'M' else {(): x.val})
        return EV('M', p)

    def power(self, b, e):
        b, e = self.to_ev(b), self.to_ev(e)
        if b is None or e is None or b.kind == 'J' or e.kind != 'S':
            return self.bad('power of unmodelled objects')
        if b.kind == 'S':
            return EV('S', mk_pow(b.val, e.val), ('Pow', [b, e]))
        if num_of(e.val) == 1:
            return b
        return EV('M', patom('POW', Frozen(b.val), z3.simplify(e.val)))

    def unop(self, op, v):
        if isinstance(v, EV) or isinstance(v, ValV):
            v = self.to_ev(v)
            if op == '-':
                if v.kind == 'S':
                    isn = v.shape is not None and v.shape[0] == 'Num'
                    return EV('S', -v.val, ('Num',) if isn else ('Mul', [self.num(z3.RealVal(-1)), v]) if v.shape is not None and v.shape[0] == 'Sym' else ('other',))
                return EV('M', pscale(z3.RealVal(-1), v.val))
            if op == 'abs':
                return EV('S', UFR('ABS', v.val), ('other',))
        if isinstance(v, ListV) or isinstance(v, AppV):
            self.I.raise_(TypeError)
        return World.unop(self, op, v)

    def binop(self, op, a, b):
        I = self.I
        if isinstance(a, (EV, ValV)) or isinstance(b, (EV, ValV)):
            x, y = self.to_ev(a), self.to_ev(b)
            if x is None or y is None:
                I.raise_(TypeError, 'operator %s' % op)
            both_num = all(v.kind == 'S' and v.shape is not None and v.shape[0] == 'Num' for v in (x, y))

            def fin(r):
                if r.kind == 'S':
                    r.shape = ('Num',) if both_num else ('other',)
                return r
            if op == 'Add':
                return fin(self.add([x, y]))
            if op == 'Sub':
                return fin(self.add([x, self.mul([-1, y])]))
            if op == 'Mult':
                return fin(self.mul([x, y]))
            if op == 'Div':
                return fin(self.mul([x, self.power(y, -1)]))
            if op == 'Pow':
                return fin(self.power(x, y))
            if op == 'Mod':
                return EV('S', UFR('MOD', x.val, y.val), ('other',))
            if op == 'MatMult':
                return self.mul([x, y])
            return self.bad('operator ' + op)
        if isinstance(a, TextV) or isinstance(b, TextV):
            I.taint('text operator')
            return TextV([Chunk('op', None)])
        return World.binop(self, op, a, b)

    def compare(self, op, a, b):
        if op in ('Eq', 'NotEq'):
            return None
        if isinstance(a, EV) or isinstance(b, EV):
            x, y = self.to_ev(a), self.to_ev(b)
            if x is not None and y is not None and x.kind == y.kind == 'S':
                if self.is_shape(x, 'Num') and self.is_shape(y, 'Num'):
                    return {'Lt': x.val < y.val, 'LtE': x.val <= y.val, 'Gt': x.val > y.val, 'GtE': x.val >= y.val}[op]
                return RelV({'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>='}[op], x, y)
        return None

    # ------------------------------------------------------------ external names
    def builtin(self, name, args, kw):
        I = self.I
        if name == 'int' and len(args) == 1:
            v = args[0]
            if isinstance(v, TextV):
                if any(isinstance(p, str) or p.alpha is None or p.alpha - DIGITS for p in v.pieces):
                    I.may_raise('int()', z3.Bool('notint:' + v.key()))
                return z3.Int('INT:' + v.key())
            if isinstance(v, EV) and v.kind == 'S':
                return z3.ToInt(v.val)
        if name == 'float' and len(args) == 1 and isinstance(args[0], TextV):
            # the nearest double: not the decimal written
            I.taint('float of a text')
            return z3.Real('FLOAT:' + args[0].key())
        if name == 'type' and isinstance(args[0], (ValV, EV)):
            return TypeOf(args[0])
        if name == 'str' and args and isinstance(args[0], (ValV, EV)):
            return self.to_str(args[0])
        if name == 'next':
            items = args[0]
            if isinstance(items, (tuple,)) and items:
                return items[0]
        if name == 'abs' and isinstance(args[0], EV):
            return self.unop('abs', args[0])
        return None

    def sfun(self, name, args):
        """A sympy function by name."""
        I = self.I
        if name in ('gcd', 'lcm', 'Max', 'Min') and len(args) == 1:
            if isinstance(args[0], ListV) and isinstance(I.heap[args[0].id], list):
                args = list(I.heap[args[0].id])
            elif isinstance(args[0], tuple):
                args = list(args[0])
        xs = [self.to_ev(a) for a in args]
        if any(x is None for x in xs):
            return self.bad('argument of %s' % name)
        if name == 'Abs' and len(xs) == 1 and xs[0].kind == 'M':
            return EV('S', z3.Real('ABS(%s)' % pkey(self.pnorm(xs[0].val))), ('other',))
        if any(x.kind != 'S' for x in xs):
            return self.bad('matrix argument of %s' % name)
        vs = [x.val for x in xs]
        if name == 'log':
            if len(vs) == 1:
                return EV('S', mk_ln(vs[0]), ('other',))
            return EV('S', mk_ln(vs[0]) if num_of(mk_ln(vs[1])) == 1 else mk_ln(vs[0]) * mk_pow(mk_ln(vs[1]), z3.RealVal(-1)), ('other',))
        if name == 'ln' and len(vs) == 1:
            return EV('S', mk_ln(vs[0]), ('other',))
        if name == 'exp' and len(vs) == 1:
            return EV('S', mk_pow(z3.Real('E'), vs[0]), ('other',))
        if name == 'sqrt' and len(vs) == 1:
            return EV('S', mk_pow(vs[0], z3.RealVal('1/2')), ('Pow', [xs[0], self.num(z3.RealVal('1/2'))]))
        if name in ('root', 'real_root') and len(vs) == 2:
            return EV('S', mk_pow(vs[0], mk_pow(vs[1], z3.RealVal(-1))), ('other',))
        if name in ('Max', 'Min') and vs:
            r = vs[0]
            for v in vs[1:]:
                r = z3.If(v > r if name == 'Max' else v < r, v, r)
            return EV('S', r, ('other',))
        if name in ('gcd', 'lcm'):
            vs = sorted(vs, key=str)
            return EV('S', UFR('%s%d' % (name.upper(), len(vs)), *vs), ('other',))
        NAMES = {'Abs': 'ABS', 'factorial': 'FACT', 'Mod': 'MOD', 'binomial': 'BINOMIAL', 'floor': 'FLOOR', 'ceiling': 'CEILING'}
        if name in NAMES:
            return EV('S', UFR(NAMES[name], *vs), ('other',))
        if name in FUNS and len(vs) == 1:
            return EV('S', UFR('fun:' + name, vs[0]), ('other',))
        return None

    def ext(self, dotted, args, kw):
        I = self.I
        parts = dotted.split('.')
        last = parts[-1]
        if any(isinstance(a, StarSeq) for a in args):
            return None
        kw = {k: v for k, v in kw.items() if k != 'evaluate'}
        if dotted.endswith('Trees.findAllTokenNodes'):
            return self.find_tokens(args)
        if dotted == 'hashlib.md5' and len(args) == 1 and isinstance(args[0], BytesV):
            return AppV('md5', (args[0].t,))
        if last == 'StrPrinter' and not args:
            return AppV('StrPrinter', ())
        if last == 'parse_expr' and args:
            if isinstance(args[0], TextV) and args[0].single() and args[0].single().key.startswith('str('):
                k = args[0].single().key[4:-1]
                return EV('S', z3.Real('value:' + k), None, 'value:' + k)
            return self.bad('parse_expr')
        if parts[0] != 'sympy':
            return None
        if last in ('Symbol', 'MatrixSymbol', 'Function', 'Dummy'):
            if last == 'Symbol':
                ok = 'real' in kw and isinstance(kw['real'], Ob) and kw['real'].ty == 'setting' and len(kw) == 1
                t = args[0]
                if isinstance(t, EV) and t.shape and t.shape[0] == 'Sym':
                    t = t.shape[1]
                if not isinstance(t, (str, TextV)):
                    return self.bad('Symbol of %r' % (t,))
                return self.symbol(t, ok)
            if last == 'MatrixSymbol':
                t = args[0]
                if isinstance(t, EV) and t.shape and t.shape[0] == 'Sym':
                    t = t.shape[1]
                if isinstance(t, (str, TextV)):
                    I.may_raise('MatrixSymbol')
                    I.log('matrixsymbol', t, args[1:])
                    return EV('M', patom('MSYM:' + (t if isinstance(t, str) else t.key())), ('msym',), None, False)
                return self.bad('MatrixSymbol')
            if last == 'Function' and isinstance(args[0], (str, TextV)):
                fn = args[0] if isinstance(args[0], str) else args[0].key()
                return HookV(lambda I, a, k: self.apply(fn, a), 'function ' + fn)
            return self.bad(last)
        if last in ('Rational', 'Number', 'Integer', 'Float', 'sympify', 'S', 'nsimplify', 'UnevaluatedExpr') and len(args) == 1 and not kw:
            v = args[0]
            if isinstance(v, (str, TextV)):
                if last == 'Float':
                    return self.bad('Float')
                if last == 'Integer' and '.' in (v if isinstance(v, str) else v.key()):
                    I.raise_(ValueError, 'Integer')
                return self.dec(v)
            e = self.to_ev(v)
            if e is not None:
                return e
            if isinstance(v, AppV) and v.name in ('int:', 'rank'):
                return v
            return self.bad(last)
        if last == 'Rational' and len(args) == 2:
            a, b = self.to_ev(args[0]), self.to_ev(args[1])
            if a is not None and b is not None:
                r = self.mul([a, self.power(b, -1)])
                r.shape = ('Num',)
                return r
        if last in ('Add', 'Mul', 'Pow'):
            xs = [self.to_ev(a) for a in args]
            if any(x is None or x.kind != 'S' for x in xs):
                return self.bad('%s of matrices' % last)
            r = self.add(xs) if last == 'Add' else self.mul(xs) if last == 'Mul' else self.power(*xs) if len(xs) == 2 else None
            return r
        if last in ('MatAdd', 'MatMul', 'MatPow'):
            xs = [self.to_ev(a) for a in args]
            if any(x is None or x.kind == 'J' for x in xs):
                return self.bad(last)
            if last == 'MatAdd' and any(x.kind != 'M' for x in xs):
                I.raise_(TypeError, 'MatAdd of a scalar')
            if last == 'MatPow' and xs[0].kind != 'M':
                I.raise_(TypeError, 'MatPow of a scalar')
            r = self.add(xs) if last == 'MatAdd' else self.mul(xs) if last == 'MatMul' else self.power(*xs)
            r.explicit = False
            return r
        REL = {'Eq': '=', 'Equality': '=', 'Ne': '!=', 'Unequality': '!=', 'StrictLessThan': '<', 'Lt': '<', 'LessThan': '<=', 'Le': '<=',
               'StrictGreaterThan': '>', 'Gt': '>', 'GreaterThan': '>=', 'Ge': '>='}
        if last in REL and len(args) == 2:
            return RelV(REL[last], args[0], args[1])
        if last in ('Integral', 'Sum', 'Product') and len(args) == 2:
            return self.binder(last, args)
        if last == 'Derivative' and len(args) == 2 and isinstance(self.to_ev(args[0]), EV) and isinstance(args[1], EV) and self.to_ev(args[0]).kind == 'S':
            return EV('S', UFR('DERIVATIVE', self.to_ev(args[0]).val, args[1].val), ('other',))
        if last == 'Limit' and len(args) >= 3:
            d = args[3] if len(args) > 3 else kw.get('dir', '+')
            xs = [self.to_ev(a) for a in args[:3]]
            if isinstance(d, str) and all(x is not None and x.kind == 'S' for x in xs):
                return EV('S', UFR('LIMIT' + d, *[x.val for x in xs]), ('other',))
            return self.bad('Limit')
        if last in ('Matrix', 'MutableDenseMatrix', 'ImmutableMatrix') and len(args) == 1:
            return self.matrix_of(args[0])
        if last in ('transpose',) and len(args) == 1:
            e = self.to_ev(args[0])
            if e is not None and e.kind == 'M':
                return EV('M', ptrans(self.pnorm(e.val)))
            if e is not None:
                return EV('S', e.val, ('other',))       # the transpose of a scalar is the scalar
            return self.bad('transpose')
        if last == 'shape':
            I.may_raise('shape')
            return AppV('shape', (args[0],))
        if last in ('eye', 'zeros', 'ones', 'diag', 'hstack', 'vstack', 'GramSchmidt'):
            out = []
            for a in args:
                if isinstance(a, ListV):
                    c = I.heap[a.id]
                    out.append(tuple(c) if isinstance(c, list) else c)
                else:
                    e = self.to_ev(a)
                    out.append(e if e is not None else a)
            nm = last
            if last == 'GramSchmidt' and kw:
                out += [tuple(sorted(kw.items()))]
            return AppV(nm, out)
        if last in ('simplify', 'expand', 'factor') and len(args) == 1 and self.to_ev(args[0]) is not None:
            e = self.to_ev(args[0])
            return EV(e.kind, e.val, ('other',) if e.kind == 'S' else None)
        r = self.sfun(last, args) if len(parts) <= 3 else None
        if r is not None:
            return r
        I.taint(dotted)
        I.external.setdefault(dotted, 'unmodelled')
        I.may_raise(dotted)
        return self.bad(dotted)

    def apply(self, fn, args):
        xs = [self.to_ev(a) for a in args]
        if any(x is None or x.kind != 'S' for x in xs):
            return self.bad('function argument')
        if not xs:
            return EV('S', z3.Real('apply:%s()' % fn), ('other',))
        return EV('S', UFR('apply:' + fn, *[x.val for x in xs]), ('other',))

    def binder(self, name, args):
        f = self.to_ev(args[0])
        lim = args[1]
        if isinstance(lim, EV):
            lim = (lim,)
        if isinstance(lim, ListV) and isinstance(self.I.heap[lim.id], list):
            lim = tuple(self.I.heap[lim.id])
        if f is None or f.kind != 'S' or not isinstance(lim, tuple):
            return self.bad(name)
        xs = [self.to_ev(x) for x in lim]
        if any(x is None or x.kind != 'S' for x in xs):
            return self.bad(name)
        return EV('S', UFR('%s%d' % (name.upper(), len(xs)), f.val, *[x.val for x in xs]), ('other',))

    def find_tokens(self, args):
        c, t = args[0], args[1]
        if not isinstance(c, CtxV):
            raise Unsupported('findAllTokenNodes')
        n = self.I.choose_n([z3.Int('ntok:%s:%s' % (c.name, t)) == j for j in range(3)])
        if not hasattr(c, 'found'):
            c.found = {}
        if (t, n) not in c.found:
            c.found[(t, n)] = [TermV(self.token(c, 'DIFFERENTIAL' if t == self.g.toknum['DIFFERENTIAL'] else 'tok%s' % t, 'f%d' % j if False else 100 + j)) for j in range(n)]
        return self.I.new_list(list(c.found[(t, n)]))

    def matrix_of(self, rows):
        I = self.I
        if isinstance(rows, ListV) and isinstance(I.heap[rows.id], list):
            out = []
            for r in I.heap[rows.id]:
                rr = r
                if isinstance(r, ListV):
                    rr = I.heap[r.id]
                if not isinstance(rr, (list, tuple)):
                    return self.badm('Matrix')
                xs = [self.to_ev(x) for x in rr]
                if any(x is None for x in xs):
                    return self.badm('Matrix entry')
                out.append(tuple(xs))
            return EV('M', patom('MATRIX', tuple(tuple(z3.simplify(x.val) if x.kind == 'S' else Frozen(x.val) for x in r) for r in out)), ('entries', out), None, True)
        return self.badm('Matrix')

    def badm(self, why):
        self.I.taint(why)
        self.junk += 1
        return EV('M', patom('unmodelled%d' % self.junk))

    # ------------------------------------------------------------ methods
    def method(self, o, name, args, kw):
        I = self.I
        if isinstance(o, TypeOf) and isinstance(o.v, tuple):
            if name == 'startswith' and args and args[0] in ('sympy', 'sympy.'):
                v = o.v[1]
                return z3.Bool('sympy value:' + v.key) if isinstance(v, ValV) else True
            raise Unsupported('type module')
        if isinstance(o, AppV):
            if o.name == 'md5' and name == 'hexdigest':
                return TextV([Chunk('md5(%s)' % o.args[0].key() if isinstance(o.args[0], TextV) else 'md5(%s)' % o.args[0], frozenset('0123456789abcdef'), 32, 32)])
            if o.name == 'StrPrinter' and name == 'doprint':
                v = args[0]
                if isinstance(v, (str, TextV)):
                    return v
                if v is None:
                    return 'None'
            I.taint('method .%s of %s' % (name, o.name))
            I.may_raise('method')
            return AppV('m', (o, name) + tuple(args))
        if isinstance(o, DeclV):
            if name in ('copy',):
                return o
            if name == 'get' and args:
                if I.choose(zb(self.contains(args[0], o))):
                    return self.subscript(o, args[0])
                return args[1] if len(args) > 1 else UNDEF
            if name in ('items', 'keys', 'values'):
                raise Unsupported('iteration over a setting')
            raise Unsupported('setting.%s' % name)
        if isinstance(o, EV):
            return self.ev_method(o, name, args, kw)
        if isinstance(o, RelV):
            if name in ('doit', 'simplify'):
                return o
            I.taint('relation.%s' % name)
            return RelV('?', o, o)
        return None

    def ev_method(self, o, name, args, kw):
        I = self.I
        if name == 'doit' or name == 'simplify' or name == 'copy' or name == 'expand':
            if o.kind == 'M':
                return EV('M', o.val, ('done',) if name == 'doit' else o.shape, None, o.explicit)
            return EV(o.kind, o.val, o.shape if o.shape and o.shape[0] in ('Num', 'Sym', 'const') else ('other',))
        if o.kind == 'M':
            key = Frozen(self.pnorm(o.val))
            if name in ('as_explicit', 'as_mutable', 'as_immutable'):
                return EV('M', o.val, ('done',), None, True)
            if name in ('norm', 'det', 'rank', 'trace') and not args:
                return EV('S', z3.Real('%s(%s)' % (name, pkey(key))), ('other',))
            if name in ('inv', 'inverse'):
                return EV('M', patom('POW', Frozen(o.val), z3.RealVal(-1)))
            if name == 'transpose':
                return EV('M', ptrans(self.pnorm(o.val)))
            if name == 'subs' and len(args) == 1 and isinstance(args[0], DeclV):
                return o
            if name in ('elementary_row_op', 'elementary_col_op'):
                if getattr(self, 'raw_rowop', None):
                    I.taint('a transformation outside its function')
                names = ['op', 'row' if 'row' in name else 'col', 'k', 'row1' if 'row' in name else 'col1', 'row2' if 'row' in name else 'col2']
                d = dict(zip(names, args))
                d.update(kw)
                x = names[1]
                if d.get('op') == 'n->kn' and d.get(x) is None and d.get(x + '1') is not None:
                    d[x] = d.pop(x + '1')          # the same in sympy
                parts = []
                for k in sorted(d):
                    v = d[k]
                    if isinstance(v, EV):
                        v = z3.simplify(v.val) if v.kind == 'S' else Frozen(v.val)
                    elif isinstance(v, (int, float)):
                        v = real(v) if k == 'k' else z3.IntVal(v)
                    elif is_z3(v):
                        v = z3.simplify(real(v) if k == 'k' else v)
                    parts.append((k, v))
                return EV('M', patom('ROWOP' if 'row' in name else 'COLOP', key, tuple(parts)), None, None, True)
            if name in ('rref', 'nullspace', 'diagonalize', 'eigenvals', 'eigenvects', 'singular_value_decomposition', 'QRdecomposition', 'LUdecomposition') and not args and not kw:
                return AppV(name, (key,))
            if name in ('col', 'row') and len(args) == 1 and not kw:
                k = args[0]
                return EV('M', patom(name, key, z3.IntVal(k) if isinstance(k, int) else z3.simplify(k) if is_z3(k) else repr(k)), None, None, True)
        if o.kind == 'S':
            if name == 'subs' and len(args) == 2:
                a, b = self.to_ev(args[0]), self.to_ev(args[1])
                if a is not None and b is not None and a.kind == b.kind == 'S':
                    return EV('S', UFR('SUBS', o.val, a.val, b.val), None, None)
            if name == 'subs' and len(args) == 1 and isinstance(args[0], DeclV):
                return o
            if name == 'has' and len(args) == 1 and isinstance(args[0], EV):
                return z3.Function('HAS', REAL, REAL, BOOL)(o.val, args[0].val)
            if name == 'atoms':
                I.taint('atoms')
                raise Unsupported('atoms')
        I.taint('method .%s' % name)
        I.external.setdefault('method .%s' % name, 'unmodelled')
        I.may_raise('method .%s' % name)
        return self.bad('method .%s' % name)

    # ------------------------------------------------------------ contracts of the functions of the module
    def func_override(self, f, args, kw):
        I = self.I
        if f.module.name != M or not self.use_contracts or f.name in self.nocontract:
            return None
        if f.name in CONTRACT and args and isinstance(args[0], CtxV) and not args[0].open and args[0].rule in CONTRACT[f.name]:
            self.used(f.qual)
            c = args[0]
            if f.name == 'convert_postfix' and self.special:
                return self.special(c)
            if f.name == 'convert_exp' and getattr(self, 'special_exp', None):
                return self.special_exp(c)
            if f.name == 'convert_func' and getattr(self, 'special_func', None):
                return self.special_func(c)
            return self.den(c)
        if f.name == 'latex2sympy' and args and isinstance(args[0], (str, TextV)):
            self.used(f.qual)
            vv = args[1] if len(args) > 1 else kw.get('variable_values')
            ok = isinstance(vv, DeclV) and vv.name == 'VARIABLE_VALUES'
            k = args[0] if isinstance(args[0], str) else args[0].key()
            return self.parsed(k, ok)
        if f.name == 'split_args' and args and isinstance(args[0], ArgText):
            self.used(f.qual)
            return self.split_text(args[0])
        if f.name == 'get_differential_var_str' and isinstance(args[0], TextV):
            self.used(f.qual)
            return TextV([Chunk('diffname(%s)' % args[0].key(), None, 1)])
        return None

    def parsed(self, key, ok):
        n = 'PARSE:%s%s' % (key, '' if ok else '|without the given values')
        if self.mode == 'M' and getattr(self, 'parse_matrix', False):
            k = 'SM'[self.I.choose_n([z3.Not(z3.Bool('matrix:' + key)), z3.Bool('matrix:' + key)])]
            return self.opaque(k, n)
        return self.opaque('S', n)

    def split_text(self, t):
        I = self.I
        n = self.nargs[I.choose_n([z3.Int('nargs:' + t.c.name) == k for k in self.nargs])] if t.c.rule != 'func_multi_arg_noparens' else 1
        parts = [TextV([Chunk('arg%d:%s' % (i, t.c.name), None, 1)]) for i in range(n)]
        if t.c.rule == 'func_common_args':
            # an argument list may end in a comma: f(x,)
            if n == 1 and I.choose(z3.Bool('trailing comma:' + t.c.name)):
                parts = parts + ['']
        return I.new_list(parts)

    def allow_recursion(self, qual):
        return qual.split(':')[-1] in self.allow_rec


class ArgText:
    """The text of an argument list: texts without outer commas, joined by commas."""
    is_seg = True

    def __init__(self, c):
        self.c = c
        self.pieces = []

    def key(self):
        return 'args:' + self.c.name

    def sym_u(self, I):
        return z3.Const('txt:' + self.key(), U)

    def sym_method(self, I, name, args, kw):
        if name == 'split' and args and args[0] == ',':
            raise Unsupported('split of an argument list at every comma')
        raise Unsupported('operation on the text of an argument list')

    def sym_iter(self, I):
        raise Unsupported('iteration over an argument list')

    def sym_truth(self, I):
        return True


EXPLICIT_ONLY = {'norm', 'rank', 'rref', 'nullspace', 'col', 'row', 'diagonalize', 'eigenvals', 'eigenvects', 'singular_value_decomposition',
                 'elementary_row_op', 'elementary_col_op', 'trace'}
FUNS = {a + b for a in ('', 'a') for b in ('sin', 'cos', 'tan', 'csc', 'sec', 'cot', 'sinh', 'cosh', 'tanh')}
