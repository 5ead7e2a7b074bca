"""Strings made of known pieces and opaque chunks with a known alphabet."""
import z3

from .values import *

WS = frozenset(' \t\n\r\x0b\x0c')
DIGITS = frozenset('0123456789')


class Chunk:
    """A piece of unknown text.  alpha: the characters it may contain (None: any); lo/hi: bounds of its length."""
    def __init__(self, key, alpha=None, lo=0, hi=None):
        self.key, self.alpha, self.lo, self.hi = key, alpha, lo, hi

    def len(self):
        if self.hi is not None and self.lo == self.hi:
            return self.lo
        return z3.Int('len:' + self.key)

    def at_least(self, k):
        return _atleast(self, k)

    def __repr__(self):
        return '<%s>' % self.key


def _atleast(c, k):
    import copy
    d = copy.copy(c)
    d.lo = max(d.lo, k)
    return d


class SubCell(Chunk):
    """Part i of n of a chunk that was split."""
    def __init__(self, parent, i, n, key, lo, hi, nostart):
        Chunk.__init__(self, key, parent.alpha, lo, hi)
        self.parent, self.i, self.n, self.nostart = parent, i, n, nostart


def split_chunk(I, c, R):
    """Fork on the length of a chunk: 1..2R single characters, or R characters, more, and R characters."""
    if isinstance(c, SubCell):
        raise Unsupported('text: a part of a chunk would have to be split again')
    n = c.len()
    lo = max(c.lo, 1)
    hi = c.hi
    def single(k):
        cells = [SubCell(c, i, k, '%s[%d]' % (c.key, i), 1, 1, False) for i in range(k)]
        w = getattr(I, 'world', None)
        if w is not None:
            w.chunk_split(cells)
        return cells
    if isinstance(n, int):
        return single(n)
    I.assume(n >= lo)
    if hi is not None:
        I.assume(n <= hi)
    for k in range(lo, 2 * R + 1):
        if I.choose(n == k):
            return single(k)
    m = 2 * R + 1
    out = [SubCell(c, i, m, '%s[%d]' % (c.key, i), 1, 1, i > 0) for i in range(R)]
    out.append(SubCell(c, R, m, '%s[%d:-%d]' % (c.key, R, R), 1, None if hi is None else hi - 2 * R, True))
    out += [SubCell(c, R + 1 + i, m, '%s[-%d]' % (c.key, R - i), 1, 1, False) for i in range(R)]
    return out


def merge_cells(pieces):
    """Parts of a split chunk that stand together again are the chunk."""
    out, i = [], 0
    while i < len(pieces):
        p = pieces[i]
        if isinstance(p, SubCell) and p.i == 0:
            q = pieces[i:i + p.n]
            if len(q) == p.n and all(isinstance(x, SubCell) and x.parent is p.parent and x.i == k and x.n == p.n for k, x in enumerate(q)):
                out.append(p.parent)
                i += p.n
                continue
        out.append(p)
        i += 1
    return out


def lacks(pieces, word):
    """No occurrence of `word` touches a chunk."""
    n = len(word)
    for i, p in enumerate(pieces):
        if not isinstance(p, Chunk):
            continue
        av = getattr(p, 'avoid', ())
        solid_ = getattr(p, 'solid', False)
        # the characters word[a:b] of an occurrence that lie in this chunk
        if p.lo == 0 and any(before(pieces, i, word[:k]) and after(pieces, i, word[k:]) for k in range(1, n)):
            return False            # across an empty chunk
        for a in range(n):
            for b in range(a + 1, n + 1):
                part = word[a:b]
                if p.alpha is not None and not set(part) <= p.alpha:
                    break
                if any(w in part for w in av) or p.hi is not None and b - a > p.hi:
                    break
                if solid_ and (a > 0 and part[0] in WS or b < n and part[-1] in WS):
                    continue
                if a > 0 and not before(pieces, i, word[:a]) or b < n and not after(pieces, i, word[b:]):
                    continue
                return False
    return True


def before(pieces, i, rest):
    """The text before piece i may end with `rest` (an over-approximation across the next chunk)."""
    j = i - 1
    while j >= 0 and rest:
        q = pieces[j]
        if isinstance(q, Chunk):
            return (q.alpha is None or rest[-1] in q.alpha) or q.lo == 0
        k = min(len(q), len(rest))
        if k and q[-k:] != rest[-k:]:
            return False
        rest = rest[:len(rest) - k]
        j -= 1
    return not rest


def after(pieces, i, rest):
    j = i + 1
    while j < len(pieces) and rest:
        q = pieces[j]
        if isinstance(q, Chunk):
            return (q.alpha is None or rest[0] in q.alpha) or q.lo == 0
        k = min(len(q), len(rest))
        if q[:k] != rest[:k]:
            return False
        rest = rest[k:]
        j += 1
    return not rest


def solid(p, chars):
    """A chunk that no stripping of these characters shortens."""
    return p.lo > 0 and (disjoint(p, chars) or getattr(p, 'solid', False) and set(chars) <= WS)


def disjoint(chunk, chars):
    return chunk.alpha is not None and not (chunk.alpha & set(chars))


def unknown(name):
    if TextV.STRICT:
        raise Unsupported('text test %s' % name)
    return z3.Bool(name)


class TextV:
    is_seg = True
    STRICT = False      # operations whose outcome depends on the unknown characters are Unsupported instead of uninterpreted

    def __init__(self, pieces):
        out = []
        for p in pieces:
            if isinstance(p, TextV):
                ps = p.pieces
            else:
                ps = [p]
            for q in ps:
                if isinstance(q, str):
                    if not q:
                        continue
                    if out and isinstance(out[-1], str):
                        out[-1] += q
                    else:
                        out.append(q)
                else:
                    out.append(q)
        self.pieces = merge_cells(out) if any(isinstance(p, SubCell) for p in out) else out

    @staticmethod
    def make(pieces):
        t = TextV(pieces)
        if not t.pieces:
            return ''
        if len(t.pieces) == 1 and isinstance(t.pieces[0], str):
            return t.pieces[0]
        return t

    def key(self):
        return ''.join(p if isinstance(p, str) else '<%s>' % p.key for p in self.pieces)

    def __repr__(self):
        return 'TextV(%s)' % self.key()

    def chunks(self):
        return [p for p in self.pieces if isinstance(p, Chunk)]

    def single(self):
        return self.pieces[0] if len(self.pieces) == 1 and isinstance(self.pieces[0], Chunk) else None

    def sym_u(self, I):
        c = self.single()
        return z3.Const('txt:' + (c.key if c else self.key()), U)

    def opaque(self, op, lo=0):
        if TextV.STRICT:
            raise Unsupported('text operation %s on %s' % (op, self.key()))
        als = [p.alpha if isinstance(p, Chunk) else frozenset(p) for p in self.pieces]
        alpha = None if any(a is None for a in als) else frozenset().union(*als)
        return TextV([Chunk('%s(%s)' % (op, self.key()), alpha, lo)])

    # ------------------------------------------------------------ protocol
    def sym_len(self, I):
        n = 0
        for p in self.pieces:
            if isinstance(p, str):
                n = n + len(p)
            else:
                k = p.len()
                if not isinstance(k, int):
                    I.assume(k >= p.lo)
                    if p.hi is not None:
                        I.assume(k <= p.hi)
                n = n + k
        return z3.simplify(n) if is_z3(n) else n

    def sym_truth(self, I):
        if any(isinstance(p, str) or p.lo > 0 for p in self.pieces):
            return True
        n = self.sym_len(I)
        return n > 0 if is_z3(n) else bool(n)

    def sym_eq(self, I, other):
        if isinstance(other, str):
            o = TextV([other])
        elif isinstance(other, TextV):
            o = other
        elif isinstance(other, Ob) and other.ty in (None, 'str'):
            return self.sym_u(I) == other.t
        else:
            return False
        a, b = list(self.pieces), list(o.pieces)

        def trim(i):
            while a and b:
                x, y = a[i], b[i]
                if isinstance(x, Chunk) and isinstance(y, Chunk):
                    if x.key == y.key:
                        a.pop(i)
                        b.pop(i)
                        continue
                    return True
                if isinstance(x, str) and isinstance(y, str):
                    n = 0
                    m = min(len(x), len(y))
                    while n < m and (x[n] == y[n] if i == 0 else x[-1 - n] == y[-1 - n]):
                        n += 1
                    if n == 0:
                        return False
                    x, y = (x[n:], y[n:]) if i == 0 else (x[:len(x) - n], y[:len(y) - n])
                    if x and y:
                        return False
                    for l, v in ((a, x), (b, y)):
                        if v:
                            l[i] = v
                        else:
                            l.pop(i)
                    continue
                # chunk against literal
                c, s = (x, y) if isinstance(x, Chunk) else (y, x)
                ch = s[0] if i == 0 else s[-1]
                if c.lo > 0 and c.alpha is not None and ch not in c.alpha:
                    return False
                return True
            return True
        if not trim(0) or not trim(-1):
            return False
        if not a and not b:
            return True
        if not a or not b:
            r = a or b
            if any(isinstance(p, str) or p.lo > 0 for p in r):
                return False
            n = TextV(r).sym_len(I)
            return n == 0
        for c, s in ((a, b), (b, a)):
            if len(c) == 1 and isinstance(c[0], Chunk) and all(isinstance(p, str) for p in s):
                lit = ''.join(s)
                if len(lit) < c[0].lo or c[0].hi is not None and len(lit) > c[0].hi or c[0].alpha is not None and not set(lit) <= c[0].alpha:
                    return False
                e = z3.Const('txt:' + c[0].key, U) == I.lit(lit)
                f = I.world.equal_texts(self, o)
                return e if f is None else z3.And(e, f)
        e = z3.Const('txt:' + TextV(a).key(), U) == z3.Const('txt:' + TextV(b).key(), U)
        f = I.world.equal_texts(self, o)
        return e if f is None else z3.And(e, f)

    def sym_add(self, I, other, right):
        if isinstance(other, str) or isinstance(other, TextV):
            return TextV.make([self, other] if not right else [other, self])
        if isinstance(other, Ob) and other.ty == 'str':
            c = Chunk('ob:%s' % other.t)
            return TextV.make([self, c] if not right else [c, self])
        raise Unsupported('text + %r' % (other,))

    def sym_slice(self, I, lo, hi, st):
        if st not in (None, 1):
            if st == -1 and lo is None and hi is None:
                return self.opaque('reversed')
            raise Unsupported('slice step of a text')
        total = self.sym_len(I)

        def norm(x):
            if x is None:
                return None
            if isinstance(x, int):
                return x
            d = z3.simplify(x - total)
            if z3.is_int_value(d):
                return d.as_long() if d.as_long() < 0 else None
            raise Unsupported('slice bound %s' % x)
        h = norm(hi) if not (isinstance(hi, int) and isinstance(total, int)) else hi
        if lo is not None and not isinstance(lo, int):
            lo = norm(lo)
        if h is not None and h >= 0 or lo is not None and lo < 0:
            # from the other end: only inside a literal or by one-character pieces
            if isinstance(total, int) and all(isinstance(p, str) or p.lo == p.hi for p in self.pieces):
                lo_, hi_, _ = slice(lo, h, None).indices(total)
                return self.cut(lo_, hi_ - total if hi_ < total else None)
            if h is not None and h >= 0 and (lo is None or lo >= 0):
                return self.prefix(lo or 0, h)
            if lo is not None and lo < 0 and (h is None or h < 0):
                t = self.reverse_take(-lo)
                return t.sym_slice(I, None, h, None) if h is not None and isinstance(t, TextV) else (t if h is None else t[:h])
            raise Unsupported('slice of a text')
        return self.cut(lo or 0, h)

    def prefix(self, lo, hi):
        if isinstance(self.pieces[0], str) and len(self.pieces[0]) >= hi:
            return self.pieces[0][lo:hi]
        out, pos = [], 0
        for p in self.pieces:
            n = len(p) if isinstance(p, str) else (p.lo if p.lo == p.hi else None)
            if n is None:
                break
            if pos + n <= hi:
                if pos >= lo:
                    out.append(p)
                elif pos + n > lo:
                    if not isinstance(p, str):
                        break
                    out.append(p[lo - pos:])
                pos += n
                if pos == hi:
                    return TextV.make(out)
            elif isinstance(p, str):
                out.append(p[max(0, lo - pos):hi - pos])
                return TextV.make(out)
            else:
                break
        return self.opaque('[%d:%d]' % (lo, hi))

    def reverse_take(self, k):
        p = self.pieces[-1]
        if isinstance(p, str) and len(p) >= k:
            return p[len(p) - k:]
        return self.opaque('[-%d:]' % k)

    def cut(self, lo, hi):
        ps = list(self.pieces)
        n = lo
        while n and ps:
            p = ps[0]
            if isinstance(p, str):
                if len(p) > n:
                    ps[0] = p[n:]
                    n = 0
                else:
                    n -= len(p)
                    ps.pop(0)
            elif p.lo == p.hi and p.lo <= n:
                n -= p.lo
                ps.pop(0)
            else:
                ps[0] = Chunk('%s[%d:]' % (p.key, n), p.alpha, max(0, p.lo - n))
                if len(ps) > 1 and p.lo < n:
                    return TextV(self.pieces).opaque('[%d:%s]' % (lo, hi))
                n = 0
        n = -hi if hi else 0
        while n and ps:
            p = ps[-1]
            if isinstance(p, str):
                if len(p) > n:
                    ps[-1] = p[:len(p) - n]
                    n = 0
                else:
                    n -= len(p)
                    ps.pop()
            elif p.lo == p.hi and p.lo <= n:
                n -= p.lo
                ps.pop()
            else:
                if len(ps) > 1 and p.lo < n:
                    return TextV(self.pieces).opaque('[%d:%s]' % (lo, hi))
                ps[-1] = Chunk('%s[:-%d]' % (p.key, n), p.alpha, max(0, p.lo - n))
                n = 0
        return TextV.make(ps)

    def sym_index(self, I, k):
        if not isinstance(k, int):
            raise Unsupported('index of a text')
        if k >= 0:
            pos = 0
            for p in self.pieces:
                n = len(p) if isinstance(p, str) else (p.lo if p.lo == p.hi else None)
                if n is None:
                    break
                if k < pos + n:
                    if isinstance(p, str):
                        return p[k - pos]
                    if n == 1:
                        return TextV([p])
                    break
                pos += n
            else:
                I.raise_(IndexError)
        elif isinstance(self.pieces[-1], str) and len(self.pieces[-1]) >= -k:
            return self.pieces[-1][k]
        elif k == -1 and self.pieces[-1].lo == self.pieces[-1].hi == 1:
            return TextV([self.pieces[-1]])
        n = self.sym_len(I)
        if is_z3(n):
            if not I.choose(n > k if k >= 0 else n >= -k):
                I.raise_(IndexError)
        c = self.pieces[0 if k == 0 else -1]
        alpha = c.alpha if k in (0, -1) and isinstance(c, Chunk) and c.lo > 0 else None
        return TextV([Chunk('%s[%d]' % (self.key(), k), alpha, 1, 1)])

    def contains_lit(self, s):
        """True / False / None for a literal substring."""
        if s == '':
            return True
        if any(isinstance(p, str) and s in p for p in self.pieces):
            return True
        if lacks(self.pieces, s):
            return False
        if len(s) == 1 and all(c.alpha is not None and s not in c.alpha for c in self.chunks()):
            return False
        # a match needs every character from somewhere; a chunk whose alphabet lacks s[k] cannot hold it
        if all(c.alpha is not None for c in self.chunks()):
            lits = set().union(*[set(p) for p in self.pieces if isinstance(p, str)] or [set()])
            al = set().union(*[c.alpha for c in self.chunks()])
            if not set(s) <= lits | al:
                return False
        return None

    def sym_contains(self, I, x):
        if isinstance(x, str):
            r = self.contains_lit(x)
            if r is not None:
                return r
            return unknown('in:%r:%s' % (x, self.key()))
        return unknown('in:%s:%s' % (getattr(x, 'key', lambda: repr(x))(), self.key()))

    def sym_in_const(self, I, c):
        ch = self.single()
        if ch is not None and ch.lo == ch.hi == 1:
            cs = [x for x in set(c) if ch.alpha is None or x in ch.alpha]
            if not cs:
                return False
            return z3.Or(*[z3.Const('txt:' + ch.key, U) == I.lit(x) for x in sorted(cs)])
        return unknown('sub:%s:%r' % (self.key(), c))

    def sym_iter(self, I):
        if all(isinstance(p, str) or p.lo == p.hi == 1 for p in self.pieces):
            out = []
            for p in self.pieces:
                out += list(p) if isinstance(p, str) else [TextV([p])]
            return tuple(out)
        h = I.world.iterate(self)
        if h is not None:
            return h
        raise Unsupported('iteration over a text of unknown length')

    # ------------------------------------------------------------ methods
    def sym_method(self, I, name, args, kw):
        if name in ('strip', 'lstrip', 'rstrip'):
            chars = WS if not args or args[0] is None else frozenset(args[0]) if isinstance(args[0], str) else None
            if chars is None:
                return self.opaque(name)
            ps = list(self.pieces)
            if name != 'rstrip':
                while ps and isinstance(ps[0], str):
                    s = ps[0].lstrip(''.join(chars))
                    if s:
                        ps[0] = s
                        break
                    ps.pop(0)
                if ps and isinstance(ps[0], Chunk) and not solid(ps[0], chars):
                    if len(ps) == 1 and name == 'strip':
                        if ps[0].key.startswith('strip('):
                            return TextV(ps)
                        return TextV([Chunk('strip(%s)' % ps[0].key, ps[0].alpha, 0, ps[0].hi)])
                    ps = [Chunk('%s(%s)' % ('lstrip', TextV(ps[:1]).key()), ps[0].alpha)] + ps[1:]
                    if len(ps) > 1:
                        return TextV(self.pieces).opaque('strip%s' % sorted(chars))
            if name != 'lstrip':
                while ps and isinstance(ps[-1], str):
                    s = ps[-1].rstrip(''.join(chars))
                    if s:
                        ps[-1] = s
                        break
                    ps.pop()
                if ps and isinstance(ps[-1], Chunk) and not solid(ps[-1], chars):
                    if len(ps) == 1:
                        return TextV([Chunk('rstrip(%s)' % ps[0].key, ps[0].alpha)])
                    return TextV(self.pieces).opaque('strip%s' % sorted(chars))
            return TextV.make(ps)
        if name == 'replace':
            a, b = args[0], args[1]
            if isinstance(a, str) and (isinstance(b, (str, TextV))) and (len(args) < 3 or args[2] == -1) and a:
                r = self.contains_lit(a)
                if r is False:
                    return self
                if lacks(self.pieces, a):
                    out = []
                    for p in self.pieces:
                        if isinstance(p, str) and a in p:
                            q = p.split(a)
                            for i, x in enumerate(q):
                                if i:
                                    out.append(b)
                                out.append(x)
                        else:
                            out.append(p)
                    return TextV.make(out)
            return self.opaque('replace[%r,%r]' % (a, b))
        if name in ('startswith', 'endswith') and len(args) == 1 and isinstance(args[0], str):
            s = args[0]
            ps = self.pieces if name == 'startswith' else list(reversed(self.pieces))
            for p in ps:
                if not s:
                    return True
                if isinstance(p, str):
                    k = min(len(p), len(s))
                    if name == 'startswith':
                        if p[:k] != s[:k]:
                            return False
                        s = s[k:]
                    else:
                        if p[len(p) - k:] != s[len(s) - k:]:
                            return False
                        s = s[:len(s) - k]
                    continue
                ch = s[0] if name == 'startswith' else s[-1]
                if p.lo > 0 and p.alpha is not None and ch not in p.alpha:
                    return False
                return unknown('%s:%r:%s' % (name, args[0], self.key()))
            return not s
        if name == 'split' and len(args) == 1 and isinstance(args[0], str) and args[0]:
            sep = args[0]
            if lacks(self.pieces, sep):
                parts, cur = [], []
                for p in self.pieces:
                    if isinstance(p, str):
                        q = p.split(sep)
                        cur.append(q[0])
                        for x in q[1:]:
                            parts.append(cur)
                            cur = [x]
                    else:
                        cur.append(p)
                parts.append(cur)
                return I.new_list([TextV.make(x) for x in parts])
            raise Unsupported('split of an opaque text')
        if name in ('lower', 'upper', 'title', 'capitalize', 'casefold', 'removeprefix', 'removesuffix', 'zfill', 'ljust', 'rjust', 'translate', 'expandtabs', 'swapcase'):
            if name == 'removeprefix' and isinstance(args[0], str):
                s = self.sym_method(I, 'startswith', args, {})
                if isinstance(s, bool):
                    return self.cut(len(args[0]), None) if s else self
            if name == 'removesuffix' and isinstance(args[0], str):
                s = self.sym_method(I, 'endswith', args, {})
                if isinstance(s, bool):
                    return self.cut(0, -len(args[0])) if s and args[0] else self
            if name in ('lower', 'upper', 'casefold', 'swapcase') and all(c.alpha is not None and all(getattr(x, name)() == x for x in c.alpha) for c in self.chunks()):
                return TextV.make([getattr(p, name)() if isinstance(p, str) else p for p in self.pieces])
            return self.opaque('%s%r' % (name, tuple(args)))
        if name in ('find', 'rfind', 'index', 'rindex', 'count'):
            if isinstance(args[0], str) and len(args) == 1 and self.contains_lit(args[0]) is False:
                if name in ('index', 'rindex'):
                    I.raise_(ValueError)
                return -1 if 'find' in name else 0
            r = z3.Int('%s:%r:%s' % (name, args, self.key()))
            I.assume(r >= (0 if name == 'count' else -1))
            if isinstance(args[0], str) and len(args) == 1 and name in ('find', 'rfind'):
                c = self.sym_contains(I, args[0])
                I.assume((r >= 0) == (z3.BoolVal(c) if isinstance(c, bool) else c))
            return r
        if name in ('isdigit', 'isalpha', 'isnumeric', 'isalnum', 'isspace', 'isupper', 'islower', 'isdecimal'):
            if name in ('isdigit', 'isnumeric', 'isdecimal') and all(p.isdigit() if isinstance(p, str) else p.lo > 0 and p.alpha is not None and p.alpha <= DIGITS for p in self.pieces):
                return True
            return unknown('%s:%s' % (name, self.key()))
        if name == 'encode':
            return BytesV(self)
        if name == 'join':
            return None
        if name == 'format':
            return self.opaque('format')
        raise Unsupported('text.%s' % name)


class BytesV:
    def __init__(self, t):
        self.t = t
