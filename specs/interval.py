"""P08: _str_to_interval on interval texts with end points of any length."""
from .common import *
from pyvc import rx
from pyvc.text import TextV, Chunk

NOCHARS = frozenset('()[],⋃∪∩')
PLAIN = frozenset(chr(i) for i in range(32, 127)) - NOCHARS - frozenset('\\{}')
SNAP = z3.RealVal('1/10000000')


class Word(Chunk):
    """The text of an end point: without brackets, commas and the signs of union and intersection."""
    def __init__(self, key, alpha=PLAIN, avoid=()):
        Chunk.__init__(self, key, alpha, 1, None)
        self.avoid = tuple(avoid)
        self.solid = True           # no blanks at either end


class End:
    """An end point: an extended real (inf -1, 0 or 1, v) and whether sympy knows it as a number."""
    def __init__(self, key, num, inf, v):
        self.key, self.num, self.inf, self.v = key, num, inf, v

    @staticmethod
    def of(x):
        if isinstance(x, End):
            return x
        if isinstance(x, (int, float)) and not isinstance(x, bool) or is_num(x):
            r = rv(x)
            r = z3.ToReal(r) if r.is_int() else r
            return End('num(%s)' % r, True, z3.IntVal(0), r)
        return None

    def lt(self, o, strict):
        a = self.v < o.v if strict else self.v <= o.v
        return z3.Or(self.inf < o.inf, z3.And(self.inf == o.inf, z3.Or(z3.And(self.inf == 0, a), z3.And(self.inf != 0, z3.BoolVal(not strict)))))

    def same(self, o):
        return z3.And(self.inf == o.inf, z3.Or(self.inf != 0, self.v == o.v))

    def sym_u(self, I):
        return z3.Function('end', INT, REAL, U)(self.inf, self.v)

    def __repr__(self):
        return 'End<%s>' % self.key


class Sets:
    """A union of intervals (lo, hi, left open, right open)."""
    def __init__(self, parts, num=True):
        self.parts, self.num = list(parts), num

    def has(self, x):
        return bor(*[inside(p, x) for p in self.parts]) if self.parts else z3.BoolVal(False)

    def empty(self):
        return band(*[void(p) for p in self.parts]) if self.parts else True

    def sym_u(self, I):
        raise Unsupported('a set of reals as an unknown object')

    def meet(self, o):
        out = []
        for a, b, l, r in self.parts:
            for c, d, m, s in o.parts:
                out.append((mx(a, c), mn(b, d), z3.If(a.same(c), z3.Or(zb(l), zb(m)), z3.If(a.lt(c, True), zb(m), zb(l))),
                            z3.If(b.same(d), z3.Or(zb(r), zb(s)), z3.If(b.lt(d, True), zb(r), zb(s)))))
        return Sets(out, band(self.num, o.num))

    def join(self, o):
        return Sets(self.parts + o.parts, band(self.num, o.num))


def mx(a, b):
    c = a.lt(b, True)
    return End('max', True, z3.If(c, b.inf, a.inf), z3.If(c, b.v, a.v))


def mn(a, b):
    c = a.lt(b, True)
    return End('min', True, z3.If(c, a.inf, b.inf), z3.If(c, a.v, b.v))


def inside(p, x):
    """The real x lies in the interval p."""
    a, b, l, r = p
    e = End('x', True, z3.IntVal(0), x)
    return z3.And(z3.If(zb(l), a.lt(e, True), a.lt(e, False)), z3.If(zb(r), e.lt(b, True), e.lt(b, False)))


def void(p):
    a, b, l, r = p
    return z3.Or(b.lt(a, True), z3.And(a.same(b), z3.Or(zb(l), zb(r), a.inf != 0)))


def end_of(key):
    return End(key, z3.Bool('is_number:' + key), z3.Int('inf:' + key), z3.Real('value:' + key))


def end_facts(keys):
    return [z3.And(z3.Int('inf:' + k) >= -1, z3.Int('inf:' + k) <= 1) for k in keys]


BAD = lambda k: z3.Bool('no expression:' + k)


class IntervalWorld(CmpWorld):
    det = True

    def __init__(self):
        CmpWorld.__init__(self)
        TextV.STRICT = True
        self.contracts[NO + 'latex2sympy'] = C(self.parse)
        self.contracts[L2 + 'latex2sympy'] = C(self.parse)
        self.assumed.update(['the LaTeX converter gives an end point its value or raises (P13, P14)',
                             'evalf() keeps the value of a number (to its 15 digits)',
                             'sympy: Interval, union and intersection of intervals are these sets of reals; Integer(x) truncates'])

    def parse(self, I, env):
        t = list(env.values())[0]
        if isinstance(t, TextV):
            t = t.sym_method(I, 'strip', [], {})
        if isinstance(t, str):
            raise Unsupported('conversion of %r' % t)
        c = t.single()
        if not isinstance(c, Word):
            # not the text of an end point: another value
            k = 'text(%s)' % t.key()
            I.assume(end_facts([k])[0])
            I.may_raise('parser', BAD(k))
            return end_of(k)
        I.may_raise('parser', BAD(c.key))
        return end_of(c.key)

    def kind(self, v):
        return None

    def finite(self, e):
        return self.I.choose(e.inf == 0)

    def truth(self, v):
        if isinstance(v, End):
            return z3.Or(v.inf != 0, v.v != 0)
        if isinstance(v, Sets):
            return True
        return CmpWorld.truth(self, v)

    def getattr(self, o, name):
        I = self.I
        if isinstance(o, End):
            if name in ('is_number', 'is_comparable'):
                return zb(o.num)
            if name in ('is_finite',):
                if I.choose(zb(o.num)):
                    return o.inf == 0
                return UNDEF
            if name in ('is_infinite',):
                if I.choose(zb(o.num)):
                    return o.inf != 0
                return UNDEF
            if name in ('is_integer', 'is_Integer', 'is_Float', 'is_Rational', 'is_rational', 'is_Symbol', 'is_symbol', 'free_symbols', 'is_extended_real', 'is_real', 'is_Number'):
                raise Unsupported('.%s of an end point' % name)
        if isinstance(o, Sets):
            if name in ('is_empty', 'is_EmptySet'):
                e = o.empty()
                if isinstance(e, bool):
                    return e
                if o.num is True:
                    return e
                b = I.fresh(BOOL, 'known empty')
                I.assume(z3.Implies(b, e))
                return b
            if name in ('start', 'end', 'left', 'right', 'left_open', 'right_open', 'inf', 'sup', 'measure', 'args', 'boundary', 'closure', 'interior'):
                raise Unsupported('.%s of a set of reals' % name)
        return None

    def eq(self, a, b):
        if isinstance(a, Sets) and isinstance(b, Sets):
            if not a.parts:
                return zb(b.empty())
            if not b.parts:
                return zb(a.empty())
            raise Unsupported('equality of sets of reals')
        if isinstance(a, (End, Sets)) or isinstance(b, (End, Sets)):
            x, y = End.of(a), End.of(b)
            if x is None or y is None:
                return False
            return x.same(y)
        return CmpWorld.eq(self, a, b)

    def binop(self, op, a, b):
        I = self.I
        if isinstance(a, Sets) and isinstance(b, Sets):
            if op in ('Add', 'BitOr'):
                return a.join(b)
            if op in ('BitAnd',):
                return a.meet(b)
            raise Unsupported('operator %s on sets' % op)
        if isinstance(a, End) or isinstance(b, End):
            x, y = End.of(a), End.of(b)
            if x is None or y is None:
                I.raise_(TypeError)
            if not (self.finite(x) and self.finite(y)):
                raise Unsupported('arithmetic with infinity')
            f = {'Add': lambda p, q: p + q, 'Sub': lambda p, q: p - q, 'Mult': lambda p, q: p * q}.get(op)
            if f is None:
                raise Unsupported('operator %s on end points' % op)
            return End('(%s%s%s)' % (x.key, op, y.key), band(x.num, y.num), z3.IntVal(0), f(x.v, y.v))
        return CmpWorld.binop(self, op, a, b)

    def unop(self, op, v):
        if isinstance(v, End):
            if op == '-':
                return End('-' + v.key, v.num, -v.inf, -v.v)
            if op == 'abs':
                return End('abs(%s)' % v.key, v.num, z3.If(v.inf != 0, 1, 0), z3.If(v.v < 0, -v.v, v.v))
        return CmpWorld.unop(self, op, v)

    def compare(self, op, a, b):
        I = self.I
        if isinstance(a, End) or isinstance(b, End):
            if op in ('Eq', 'NotEq'):
                return None
            x, y = End.of(a), End.of(b)
            if x is None or y is None:
                I.raise_(TypeError)
            if not I.choose(band(zb(x.num), zb(y.num))):
                # a relation that has no truth value
                I.may_raise('comparison of symbols')
                return I.fresh(BOOL, 'comparison of symbols')
            return {'Lt': x.lt(y, True), 'LtE': x.lt(y, False), 'Gt': y.lt(x, True), 'GtE': y.lt(x, False)}[op]
        return CmpWorld.compare(self, op, a, b)

    def builtin(self, name, args, kw):
        I = self.I
        if args and isinstance(args[0], End) and len(args) == 1:
            e = args[0]
            if name == 'abs':
                return self.unop('abs', e)
            if name in ('round', 'int', 'float'):
                if not I.choose(zb(e.num)):
                    I.raise_(TypeError, name + ' of a symbol')
                if not self.finite(e):
                    if name == 'float':
                        raise Unsupported('float of infinity')
                    if name == 'round':
                        return e
                    I.raise_(OverflowError)
                if name == 'float':
                    return e.v
                if name == 'int':
                    return trunc(I, e.v)
                from pyvc.builtins_ import call_builtin
                return call_builtin(I, 'round', [e.v], {})
        return None

    def method(self, o, name, args, kw):
        I = self.I
        if isinstance(o, End):
            if name in ('evalf', 'n', 'simplify', 'doit', 'expand'):
                return o
        if isinstance(o, Sets):
            if name in ('intersect', 'intersection') and len(args) == 1:
                return o.meet(args[0])
            if name == 'union' and len(args) == 1:
                return o.join(args[0])
            if name in ('simplify', 'doit'):
                return o
        return None

    def ext_attr(self, dotted, name):
        full = dotted + '.' + name
        if full in ('sympy.EmptySet', 'sympy.S.EmptySet', 'sympy.sets.EmptySet'):
            return Sets([])
        if full in ('sympy.Reals', 'sympy.S.Reals'):
            i = z3.IntVal
            return Sets([(End('-oo', True, i(-1), z3.RealVal(0)), End('oo', True, i(1), z3.RealVal(0)), True, True)])
        if full in ('sympy.oo', 'sympy.S.Infinity'):
            return End('oo', True, z3.IntVal(1), z3.RealVal(0))
        return CmpWorld.ext_attr(self, dotted, name)

    def ext(self, dotted, args, kw):
        I = self.I
        last = dotted.rsplit('.', 1)[-1]
        if last == 'EmptySet' and not args:
            return Sets([])
        if last in ('Integer',) and len(args) == 1:
            e = End.of(args[0])
            if e is None:
                raise Unsupported('Integer of %r' % (args[0],))
            if not I.choose(band(zb(e.num), e.inf == 0)):
                I.raise_(TypeError)
            t = args[0] if is_int(args[0]) else trunc(I, e.v)
            return End.of(t)
        if last in ('sympify', 'S', 'Rational', 'Float', 'nsimplify', 'simplify', 'N') and len(args) == 1 and End.of(args[0]) is not None:
            return End.of(args[0])
        if last in ('Interval', 'open', 'Lopen', 'Ropen') and dotted.startswith('sympy'):
            names = ['start', 'end', 'left_open', 'right_open']
            a = dict(zip(names, args))
            a.update(kw)
            x, y = End.of(a['start']), End.of(a['end'])
            if x is None or y is None:
                raise Unsupported('Interval%r' % (args,))
            l, r = I.truth(a.get('left_open', last in ('open', 'Lopen'))), I.truth(a.get('right_open', last in ('open', 'Ropen')))
            return Sets([(x, y, l, r)], x.num is True and y.num is True or band(zb(x.num), zb(y.num)))
        if last in ('Union', 'Intersection') and all(isinstance(x, Sets) for x in args) and args:
            s = args[0]
            for y in args[1:]:
                s = s.join(y) if last == 'Union' else s.meet(y)
            return s
        if last == 'FiniteSet':
            raise Unsupported('FiniteSet')
        if dotted == 're.compile':
            if isinstance(args[0], str):
                return rx.PatV(rx.compile_pattern(args[0], rx.flag_value(args[1] if len(args) > 1 else kw.get('flags', 0))))
            return None
        if dotted.startswith('re.'):
            r = rx.call_re(I, dotted[3:], args, kw)
            if r is not None:
                return r
        return CmpWorld.ext(self, dotted, args, kw)


def trunc(I, v):
    t = I.fresh(INT, 'trunc')
    r = z3.ToReal(t)
    I.assume(z3.If(v >= 0, z3.And(r <= v, v < r + 1), z3.And(r - 1 < v, v <= r)))
    for y, q in I.ex.rounds:
        # y is an integer within a half of q
        I.assume(z3.Implies(q == v, z3.If(v >= 0, z3.If(y <= v, r == y, r == y - 1), z3.If(y >= v, r == y, r == y + 1))))
    return t


def nearest(key):
    """The integer nearest to the value written."""
    return z3.ToReal(z3.Int('nearest:' + key))


def far(key, e):
    """An integer, or further than 1e-7 from every integer, or infinite, or not a number."""
    m = nearest(key)
    return z3.Or(e.inf != 0, z3.Not(zb(e.num)), e.v == m, e.v - m > SNAP, m - e.v > SNAP)


def union_of(parts, x):
    return bor(*[band(*[inside(p, x) for p in g]) for g in parts])


def template(u, I, name, groups, words, seps, blanks='', ints=False):
    u.attempt(name, lambda: template_(u, I, name, groups, words, seps, blanks, ints))


def template_(u, I, name, groups, words, seps, blanks, ints):
    """groups: for each part of the union the intervals intersected, as (left bracket, word, word, right bracket)."""
    cup, cap = seps
    b = blanks
    pieces = []
    for i, g in enumerate(groups):
        if i:
            pieces.append(cup[i - 1])
        for j, (l, a, c, r) in enumerate(g):
            if j:
                pieces.append(cap[(i + j - 1) % len(cap)])
            pieces += [b + l, b, words[a], b, ',', b, words[c], b, r + b]
    t = TextV(pieces)
    used = sorted({k for g in groups for (_, a, c, _) in g for k in (a, c)})
    ends = {k: end_of(words[k].key) for k in used}
    x = z3.Real('x')
    facts = end_facts([words[k].key for k in used])
    # numbers are literals or expressions without a free symbol; infinities are numbers
    facts += [z3.Implies(e.inf != 0, zb(e.num)) for e in ends.values()]
    bad = z3.Or(*[BAD(words[k].key) for k in used])
    reversed_ = z3.Or(*[z3.And(zb(ends[a].num), zb(ends[c].num), ends[c].lt(ends[a], True)) for g in groups for (_, a, c, _) in g])
    exact = z3.And(*[far(e.key, e) for e in ends.values()])
    want = union_of([[(ends[a], ends[c], l == '(', r == ')') for (l, a, c, r) in g] for g in groups], x)

    def prepare():
        for f in facts:
            I.assume(f)
        for e in ends.values():
            I.ex.rounds.append((nearest(e.key), e.v))
    facts += [z3.And(2 * (nearest(e.key) - e.v) <= 1, 2 * (e.v - nearest(e.key)) <= 1) for e in ends.values()]
    if ints:
        facts += [z3.And(e.num, e.inf == 0, e.v == nearest(e.key), z3.Not(BAD(e.key))) for e in ends.values()]
    u.cover(name + ': an interval', facts + [z3.Not(bad), z3.Not(reversed_), exact])
    res = u.explore(I, NO + '_str_to_interval', [t], prepare=prepare)
    seen = False
    for i, r in enumerate(res):
        imp = bool(r.taint)
        tag = '%s, %s' % (name, path_tag(i))
        if r.kind == 'raise':
            u.prove(tag + ': no exception', r.pc, False, imprecise=imp)
            continue
        I.heap = dict(r.snap[1])
        v = r.value
        if v is None:
            allnum = z3.And(*[zb(e.num) for e in ends.values()])
            u.prove(tag + ': readable end points in order are an interval', r.pc + [exact, allnum], z3.Or(bad, reversed_), imprecise=imp)
            continue
        if not isinstance(v, Sets):
            u.prove(tag + ': a set of reals or None', r.pc, False, imprecise=imp, info='%r' % (v,))
            continue
        seen = True
        u.prove(tag + ': a reversed range is no interval', r.pc + [exact], z3.Not(reversed_), imprecise=imp)
        u.prove(tag + ': the set written', r.pc + [exact], v.has(x) == want, imprecise=imp)
        if len(ends) == 2 and not ints:
            # an end point within 1e-7 of an integer may be read as that integer
            h = v.has(x)
            alts = [[end_of(e.key), End(e.key, e.num, e.inf, nearest(e.key))] for e in ends.values()]
            ok = []
            for p in alts[0]:
                for q in alts[1]:
                    d = dict(zip(ends, (p, q)))
                    close = z3.And(*[z3.Or(d[k].v == e.v, z3.And(e.v - d[k].v <= SNAP, d[k].v - e.v <= SNAP)) for k, e in ends.items()])
                    ok.append(z3.And(close, h == union_of([[(d[a], d[c], l == '(', r_ == ')') for (l, a, c, r_) in g] for g in groups], x)))
            u.prove(tag + ': the set written, up to integers within 1e-7', r.pc, z3.Or(*ok), imprecise=imp)
    u.cover(name + ': some path returns a set', [z3.BoolVal(seen)])


BRACKETS = [(l, r) for l in '([' for r in ')]']


def words(kind):
    if kind == 'latex':
        al = frozenset(chr(i) for i in range(32, 127)) - NOCHARS
        return {k: Word(k, al, ('\\cup', '\\cap', '\\left', '\\right')) for k in 'ABCDEF'}
    return {k: Word(k) for k in 'ABCDEF'}


def setup(u):
    w = IntervalWorld()
    u.timeout_ms = 8000
    return w, u.interp(w)


def unit_interval(u, part):
    w, I = setup(u)
    for kind in ('plain', 'latex'):
        W = words(kind)
        for b in ('', ' '):
            for l, r in BRACKETS:
                template(u, I, '%s %sA,B%s%s' % (kind, l, r, ' with blanks' if b else ''), [[(l, 'A', 'B', r)]], W, ([], []), b)


def two(l, r, m, s, meet=False):
    a, b = (l, 'A', 'B', r), (m, 'C', 'D', s)
    return [[a, b]] if meet else [[a], [b]]


COMBOS = [('(', ']', '[', ')'), ('[', ')', '(', ']')]
ALL = [(l, r, m, s) for l in '([' for r in ')]' for m in '([' for s in ')]']
THREE = [('(', 'A', 'B', ']'), ('[', 'C', 'D', ')'), ('(', 'E', 'F', ')')]


def unit_union(u, part):
    """Two intervals: any end points."""
    w, I = setup(u)
    for i, c in enumerate(COMBOS):
        template(u, I, 'union %s,%s and %s,%s' % c, two(*c), words('latex'), (['\\cup'], []))


def unit_intersection(u, part):
    w, I = setup(u)
    for c in COMBOS:
        template(u, I, 'intersection %s,%s and %s,%s' % c, two(*c, meet=True), words('latex'), ([], ['\\cap']))


def unit_unions(u, part):
    """Bounded: unions of two and of three intervals, all brackets and signs, integer end points."""
    w, I = setup(u)
    for kind in ('plain', 'latex'):
        W = words(kind)
        for cup in ('\\cup', ' \\cup ', '⋃', '∪'):
            for c in ALL:
                template(u, I, '%s %s,%s %s %s,%s' % ((kind,) + c[:2] + (cup,) + c[2:]), two(*c), W, ([cup], []), '', True)
        for cups in (['\\cup', '\\cup'], ['⋃', '\\cup'], ['\\cup', '∪'], ['⋃', '⋃']):
            template(u, I, '%s three, %s' % (kind, cups), [[x] for x in THREE], W, (cups, []), '', True)


def unit_intersections(u, part):
    """Bounded: intersections of two and of three intervals and unions of them, all brackets and signs, integer end points."""
    w, I = setup(u)
    for kind in ('plain', 'latex'):
        W = words(kind)
        for cap in ('\\cap', ' \\cap ', '∩'):
            for c in ALL:
                template(u, I, '%s %s,%s %s %s,%s' % ((kind,) + c[:2] + (cap,) + c[2:]), two(*c, meet=True), W, ([], [cap]), '', True)
        for caps in (['\\cap', '\\cap'], ['∩', '\\cap'], ['∩', '∩']):
            template(u, I, '%s three, %s' % (kind, caps), [THREE], W, ([], caps), '', True)
        for cup in ('\\cup', '⋃'):
            for cap in ('\\cap', '∩'):
                template(u, I, '%s A%sB%sC' % (kind, cap, cup), [THREE[:2], THREE[2:]], W, ([cup], [cap]), '', True)
                template(u, I, '%s A%sB%sC' % (kind, cup, cap), [THREE[:1], THREE[1:]], W, ([cup], [cap]), '', True)
