"""Texts seen character by character, with ghost functions for bracket depth and pieces.

Ghost functions over a text whose characters are CH(0), CH(1), ..., for a scan that starts at position s:
  D(s, p)     number of opening minus closing brackets in [s, p)
  LAST(s, p)  position after the last comma at depth 0 in [s, p) (s when there is none)
  K(s, p)     number of commas at depth 0 in [s, p)
  ST/EN(s, k) start and end of piece k (the piece that the (k+1)-th comma at depth 0 ends)
They are definitions by recursion on p; a path gets the equations at p whenever the code reads the character at p."""
from .common import *

OPEN, CLOSE = '([{', ')]}'


class Ghost:
    def __init__(self, name='T', quotes=None):
        self.name = name
        f = lambda nm, *s: z3.Function('%s.%s' % (name, nm), *s)
        self.CH = f('char', INT, U)
        self.D = f('depth', INT, INT, INT)
        self.LAST = f('last', INT, INT, INT)
        self.K = f('commas', INT, INT, INT)
        self.ST = f('start', INT, INT, INT)
        self.EN = f('end', INT, INT, INT)
        self.SUB = f('sub', INT, INT, U)
        self.STRIP = z3.Function('strip', U, U)

    def is_(self, I, p, chars):
        return z3.Or(*[self.CH(p) == I.lit(c) for c in chars])

    def base(self, s):
        return z3.And(self.D(s, s) == 0, self.LAST(s, s) == s, self.K(s, s) == 0, self.SUB(s, s) == z3.Const("lit:''", U))

    def unfold(self, I, s, p):
        D, L, K = self.D(s, p), self.LAST(s, p), self.K(s, p)
        cut = z3.And(self.CH(p) == I.lit(','), D == 0)
        delta = z3.If(self.is_(I, p, OPEN), 1, z3.If(self.is_(I, p, CLOSE), -1, 0))
        return z3.And(self.D(s, p + 1) == D + delta,
                      self.LAST(s, p + 1) == z3.If(cut, p + 1, L),
                      self.K(s, p + 1) == K + z3.If(cut, 1, 0),
                      self.SUB(p + 1, p + 1) == I.lit(''),
                      z3.Implies(cut, z3.And(self.ST(s, K) == L, self.EN(s, K) == p)))


def simp(t):
    return z3.simplify(rv(t))


class CharText:
    """The characters lo..hi-1 of the text (0 <= lo <= hi)."""
    is_seg = True

    def __init__(self, g, lo, hi, s=None):
        self.g, self.lo, self.hi = g, simp(lo), simp(hi)
        self.s = self.lo if s is None else s        # where the scan it belongs to starts

    def __repr__(self):
        return 'CharText[%s:%s]' % (self.lo, self.hi)

    def key(self):
        return repr(self)

    def sym_u(self, I):
        return self.g.SUB(self.lo, self.hi)

    def sym_len(self, I):
        return simp(self.hi - self.lo)

    def sym_truth(self, I):
        return self.hi > self.lo

    def sym_subst(self, S):
        return CharText(self.g, S.f(self.lo), S.f(self.hi), S.f(rv(self.s)))

    def char(self, I, p):
        p = simp(p)
        if I.ex is not None:
            I.assume(self.g.unfold(I, self.s, p))
        return CharText(self.g, p, p + 1, self.s)

    def sym_index(self, I, k):
        if not is_int(k):
            I.raise_(TypeError)
        n = self.hi - self.lo
        k = rv(k)
        if I.choose(z3.Or(k >= n, k < -n)):
            I.raise_(IndexError)
        return self.char(I, self.hi + k if I.choose(k < 0) else self.lo + k)

    def sym_slice(self, I, lo, hi, st):
        if st not in (None, 1):
            raise Unsupported('slice step of a text')
        n = self.hi - self.lo

        def norm(x, d):
            if x is None:
                return d
            x = rv(x)
            if I.choose(x < 0):
                x = x + n
                return z3.IntVal(0) if I.choose(x < 0) else x
            return n if I.choose(x > n) else x
        a, b = norm(lo, z3.IntVal(0)), norm(hi, n)
        if I.choose(a > b):
            b = a
        return CharText(self.g, self.lo + a, self.lo + b)

    def sym_iter(self, I):
        if I.ex is not None:
            I.assume(self.g.base(self.lo))
            I.assume(self.hi >= self.lo)
        I.world.views = [v for v in I.world.views if not (v.lo.eq(self.lo) and v.hi.eq(self.hi))] + [self]
        return RangeSeq(self, 'iter')

    def sym_eq(self, I, o):
        if isinstance(o, str):
            if not o:
                return self.hi == self.lo
            fs = [self.hi - self.lo == len(o)] + [self.g.CH(simp(self.lo + i)) == I.lit(c) for i, c in enumerate(o)]
            return z3.simplify(z3.And(*fs)) if not z3.is_true(z3.simplify(fs[0])) else z3.And(*fs[1:]) if len(fs) > 2 else fs[1]
        if isinstance(o, (CharText, StripText)) or isinstance(o, Ob) and o.ty in (None, 'str'):
            return self.sym_u(I) == I.to_u(o)
        return False

    def sym_in_const(self, I, c):
        if z3.is_true(z3.simplify(self.hi - self.lo == 1)) and isinstance(c, str):
            return self.g.is_(I, self.lo, sorted(set(c))) if c else False
        raise Unsupported('text in a constant')

    def sym_contains(self, I, x):
        if isinstance(x, str) and len(x) == 1:
            q = z3.Int('q!%d' % I.next())
            return z3.Exists([q], z3.And(q >= self.lo, q < self.hi, self.g.CH(q) == I.lit(x)))
        raise Unsupported('substring test on a text')

    def sym_add(self, I, o, right):
        a, b = (o, self) if right else (self, o)
        if a == '':
            return b
        if b == '':
            return a
        if isinstance(a, CharText) and isinstance(b, CharText):
            if z3.is_true(z3.simplify(a.hi == b.lo)) or I.ex is not None and not I.ex.feasible(z3.Not(a.hi == b.lo)):
                return CharText(a.g, a.lo, b.hi)
            return Cat([a, b])
        if isinstance(a, (str, Cat)) or isinstance(b, (str, Cat)):
            return Cat([a, b])
        raise Unsupported('text + %r' % (o,))

    def sym_method(self, I, name, args, kw):
        if name == 'strip' and (not args or args == [' ']) and not kw:
            return StripText(self)
        if name in ('startswith', 'endswith') and len(args) == 1 and isinstance(args[0], str) and not kw:
            c = args[0]
            if not c:
                return True
            p = self.lo if name == 'startswith' else self.hi - len(c)
            return z3.And(self.hi - self.lo >= len(c), *[self.g.CH(simp(p + i)) == I.lit(x) for i, x in enumerate(c)])
        raise Unsupported('text.%s' % name)


class StripText:
    """A piece of the text without surrounding spaces."""
    is_seg = True

    def __init__(self, t):
        self.t = t

    def sym_u(self, I):
        return self.t.g.STRIP(self.t.sym_u(I))

    def sym_truth(self, I):
        return self.sym_u(I) != I.lit('')

    def sym_eq(self, I, o):
        if isinstance(o, (CharText, StripText, str)) or isinstance(o, Ob) and o.ty in (None, 'str'):
            return self.sym_u(I) == I.to_u(o)
        return False

    def sym_subst(self, S):
        return StripText(self.t.sym_subst(S))

    def key(self):
        return 'strip(%s)' % self.t.key()

    def sym_len(self, I):
        n = z3.Function('len_u', U, INT)(self.sym_u(I))
        I.assume(n >= 0)
        I.assume((n == 0) == (self.sym_u(I) == I.lit('')))
        return n

    def sym_method(self, I, name, args, kw):
        if name == 'strip' and (not args or args == [' ']):
            return self
        raise Unsupported('text.%s' % name)


class Cat:
    """Characters put together that are not neighbours in the text."""
    is_seg = True

    def __init__(self, parts):
        self.parts = []
        for p in parts:
            self.parts += p.parts if isinstance(p, Cat) else [p]

    def chars(self):
        out = []
        for p in self.parts:
            if isinstance(p, str):
                out += list(p)
            elif z3.is_true(z3.simplify(p.hi - p.lo == 1)):
                out.append(p)
            else:
                return None
        return out

    def sym_eq(self, I, o):
        cs = self.chars()
        if isinstance(o, str) and cs is not None:
            if len(o) != len(cs):
                return False
            return band(*[(x == y) if isinstance(x, str) else x.sym_eq(I, y) for x, y in zip(cs, o)])
        raise Unsupported('comparison of a concatenation')

    def sym_in_const(self, I, c):
        cs = self.chars()
        if cs is not None and isinstance(c, str):
            return bor(*[self.sym_eq(I, c[i:i + len(cs)]) for i in range(len(c) - len(cs) + 1)])
        raise Unsupported('concatenation in a constant')

    def sym_u(self, I):
        return z3.Function('cat%d' % len(self.parts), *([U] * (len(self.parts) + 1)))(*[I.to_u(p) for p in self.parts])

    def sym_truth(self, I):
        return bor(*[True if isinstance(p, str) else p.sym_truth(I) for p in self.parts])

    def sym_add(self, I, o, right):
        return Cat([o, self] if right else [self, o])

    def key(self):
        return '+'.join(p if isinstance(p, str) else p.key() for p in self.parts)

    def sym_subst(self, S):
        return Cat([p if isinstance(p, str) else p.sym_subst(S) for p in self.parts])


class RangeSeq(SeqV):
    """The characters of a CharText as a sequence."""
    __slots__ = ('text',)

    def __init__(self, text, kind='list'):
        self.text = text
        SeqV.__init__(self, kind, text.sym_len(None), None)
        self.get = lambda i: text.char(CharWorld.current.I, text.lo + rv(i))

    def sym_subst(self, S):
        return RangeSeq(self.text.sym_subst(S), self.kind)


class Pieces(SeqV):
    """The first m pieces of the scan from s, stripped or not."""
    __slots__ = ('s', 'strip')

    def __init__(self, g, s, m, strip):
        self.s, self.strip = s, strip
        SeqV.__init__(self, 'list', simp(m), lambda k: self_get(g, s, k, strip))


def self_get(g, s, k, strip):
    t = CharText(g, g.ST(s, rv(k)), g.EN(s, rv(k)))
    return StripText(t) if strip else t


def contiguous(I, c, g):
    """The list content c as one CharText, or '' when empty, or None."""
    parts = [c] if isinstance(c, list) else I.parts_of(c)
    out = ''
    for p in parts:
        if isinstance(p, list):
            xs = p
        elif isinstance(p, RangeSeq):
            xs = [p.text]
        else:
            m = z3.simplify(p.n)
            if not z3.is_int_value(m) or m.as_long() > 4:
                return None
            xs = [p.get(z3.IntVal(i)) for i in range(m.as_long())]
        for x in xs:
            if not isinstance(x, CharText):
                return None
            if out == '':
                out = x
            else:
                out = out.sym_add(I, x, False)
                if not isinstance(out, CharText):
                    return None
    return out


class Shape:
    """A closed form for a list or text carried around a loop: at(i) is its value at the start of iteration i, is_at(v, i) the formula
    saying that v (in state `heap`) has that value."""


class Progress(Shape):
    def __init__(self, g, view, as_list):
        self.g, self.view, self.as_list = g, view, as_list

    def at(self, I, i):
        s = self.view.lo
        p = simp(s + rv(i))
        t = CharText(self.g, self.g.LAST(s, p), p)
        return RangeSeq(t) if self.as_list else t

    def is_at(self, I, v, i):
        s = self.view.lo
        p = s + rv(i)
        c = contiguous(I, v, self.g) if self.as_list else v
        if c is None:
            return None
        if c == '':
            return self.g.LAST(s, p) == p
        if not isinstance(c, CharText):
            return None
        return z3.And(c.hi == p, c.lo == self.g.LAST(s, p))


class Done(Shape):
    as_list = True

    def __init__(self, g, view, strip):
        self.g, self.view, self.strip = g, view, strip

    def at(self, I, i):
        s = self.view.lo
        return Pieces(self.g, s, self.g.K(s, simp(s + rv(i))), self.strip)

    def is_at(self, I, v, i):
        s = self.view.lo
        p = s + rv(i)
        if isinstance(v, list):
            return self.g.K(s, p) == 0 if not v else None
        parts = I.parts_of(v)
        if not isinstance(parts[0], Pieces) or parts[0].strip != self.strip:
            return None
        fs, n = [], parts[0].n
        for q in parts[1:]:
            m = z3.simplify(q.n)
            if not z3.is_int_value(m):
                return None
            for x in range(m.as_long()):
                e = self_get(self.g, s, n, self.strip)
                fs.append(I.to_u(q.get(z3.IntVal(x))) == I.to_u(e))
                n = n + 1
        return z3.And(self.g.K(s, p) == n, *fs)


class AllPieces(Shape):
    """The finished pieces and the one in progress, in one list."""
    as_list = True

    def __init__(self, g, view):
        self.g, self.view = g, view

    def at(self, I, i):
        s = self.view.lo
        p = simp(s + rv(i))
        return I.concat(Pieces(self.g, s, self.g.K(s, p), False), I.as_seq((CharText(self.g, self.g.LAST(s, p), p),)), 'list')

    def is_at(self, I, v, i):
        s = self.view.lo
        p = s + rv(i)
        c = v if isinstance(v, SeqV) else I.as_seq(tuple(v))
        K = self.g.K(s, p)
        q = z3.Int('q!%d' % I.next())
        return z3.And(c.n == K + 1, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < K), I.to_u(c.get(q)) == self.g.SUB(self.g.ST(s, q), self.g.EN(s, q)))),
                      I.to_u(c.get(simp(K))) == self.g.SUB(self.g.LAST(s, p), p))


class CharWorld(CmpWorld):
    current = None
    det = qf = True

    def __init__(self, g=None):
        CmpWorld.__init__(self)
        self.g = g or Ghost()
        self.views = []
        CharWorld.current = self

    def str_add(self, a, b):
        if isinstance(a, (str, Cat, CharText)) and isinstance(b, (str, Cat, CharText)):
            return Cat([a, b])
        return None

    def join(self, sep, items):
        I = self.I
        if sep == '':
            c = contiguous(I, I.items_of(items), self.g)
            if c is not None:
                return c
        return None

    def make_set(self, items):
        return SeqV('set', items.n, items.get)

    def loop_shapes(self, I, loc, init):
        out = []
        for v in reversed(self.views[-4:]):
            if init == '':
                out += [Progress(self.g, v, False)]
            elif isinstance(init, list) and not init:
                out += [Progress(self.g, v, True), Done(self.g, v, True), Done(self.g, v, False)]
            elif isinstance(init, list) and init == ['']:
                out += [AllPieces(self.g, v)]
        return out

    def loop_candidates(self, I, traces, at, seq):
        g = self.g
        out = []
        seen = set()
        for v in self.views[-4:]:
            s = v.lo
            if str(s) in seen:
                continue
            seen.add(str(s))
            for L in traces:
                if L.kind == 'int':
                    for f in (g.D, g.LAST, g.K):
                        out.append(lambda i, L=L, f=f, s=s: at(L, i) == f(s, s + E.rv(i)))
                    out.append(lambda i, L=L, s=s: at(L, i) + s == g.LAST(s, s + E.rv(i)))
                if L.kind == 'bool':
                    n = v.hi - v.lo

                    def m2(i, s=s, n=n):
                        q = z3.Int('mq')
                        return z3.ForAll([q], z3.Implies(z3.And(q >= s + 1, q <= s + E.rv(i), q < s + n), g.D(s, q) != 0), patterns=[g.D(s, q)])
                    out.append(lambda i, L=L, m=m2: at(L, i) == m(i))
                    out.append(lambda i, L=L, m=m2: at(L, i) == z3.Not(m(i)))
            out.append(lambda i, s=s: z3.And(g.LAST(s, s + E.rv(i)) >= s, g.LAST(s, s + E.rv(i)) <= s + E.rv(i), g.K(s, s + E.rv(i)) >= 0))
        return out
