"""Python regular expressions on texts made of known characters and chunks of unknown characters.

The pattern is parsed by CPython's own parser (re._parser) and matched with the backtracking priorities of `re`.  A chunk of
unknown length over an alphabet is consumed as a whole by an unbounded repetition of a set that contains its alphabet; where a
bounded repetition meets it, the path forks on its length.  Whatever would depend on the unknown characters themselves is
Unsupported.  Checked against `re` itself by selftest()."""
import re
import re._constants as K
import re._parser as P

from .values import *
from .text import TextV, Chunk, SubCell, split_chunk, lacks


class Refine(Exception):
    def __init__(self, i):
        self.i = i


class CSet:
    """A set of characters."""
    def __init__(self, test, txt):
        self.test, self.txt = test, txt
        self.lit = None             # the one character it matches
        self.memo = {}

    def rel(self, alpha):
        """'sub' when it contains the alphabet, 'disj' when it meets none of it, 'part' otherwise."""
        if alpha is None:
            return 'part'
        r = self.memo.get(alpha)
        if r is None:
            n = sum(1 for c in alpha if self.test(c))
            r = self.memo[alpha] = 'disj' if n == 0 else 'sub' if n == len(alpha) else 'part'
        return r


CAT = {K.CATEGORY_DIGIT: str.isdigit, K.CATEGORY_NOT_DIGIT: lambda c: not c.isdigit(), K.CATEGORY_SPACE: str.isspace,
       K.CATEGORY_NOT_SPACE: lambda c: not c.isspace(), K.CATEGORY_WORD: lambda c: c.isalnum() or c == '_',
       K.CATEGORY_NOT_WORD: lambda c: not (c.isalnum() or c == '_')}


def fold(test, flags):
    if flags & re.I:
        return lambda c: test(c) or test(c.lower()) or test(c.upper())
    return test


def in_set(items):
    neg, tests = False, []
    for op, av in items:
        if op is K.NEGATE:
            neg = True
        elif op is K.LITERAL:
            tests.append(lambda c, a=chr(av): c == a)
        elif op is K.RANGE:
            tests.append(lambda c, a=av: a[0] <= ord(c) <= a[1])
        elif op is K.CATEGORY:
            tests.append(CAT[av])
        else:
            raise Unsupported('regex set item %s' % op)
    t = lambda c: any(f(c) for f in tests)
    return (lambda c: not t(c)) if neg else t


def compile_(sub, flags):
    """-> list of nodes: ('set', CSet) ('rep', nodes, lo, hi, greedy) ('alt', [nodes]) ('group', n, nodes) ('at', where)"""
    out = []
    for op, av in sub:
        if op is K.LITERAL:
            out.append(('set', CSet(fold(lambda c, a=chr(av): c == a, flags), chr(av))))
            if not flags & re.I:
                out[-1][1].lit = chr(av)
        elif op is K.NOT_LITERAL:
            out.append(('set', CSet(lambda c, a=chr(av): c != a, '[^%s]' % chr(av))))
        elif op is K.ANY:
            out.append(('set', CSet((lambda c: True) if flags & re.S else (lambda c: c != '\n'), '.')))
        elif op is K.IN:
            out.append(('set', CSet(fold(in_set(av), flags), 'in')))
        elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, s = av
            hi = None if hi is K.MAXREPEAT or hi == K.MAXREPEAT else hi
            body = compile_(s, flags)
            if nullable(body) and not (len(body) == 1 and body[0][0] == 'set') and hi != 1:
                raise Unsupported('regex: repetition of an empty match')
            out.append(('rep', body, lo, hi, op is K.MAX_REPEAT))
        elif op is K.BRANCH:
            out.append(('alt', [compile_(s, flags) for s in av[1]]))
        elif op is K.SUBPATTERN:
            g, add, dele, s = av
            if add or dele:
                raise Unsupported('regex flags in a group')
            out.append(('group', g, compile_(s, flags)) if g is not None else ('alt', [compile_(s, flags)]))
        elif op is K.AT:
            out.append(('at', av))
        elif op in (K.ASSERT, K.ASSERT_NOT):
            d, s = av
            out.append(('look', d, compile_(s, flags), op is K.ASSERT))
        else:
            raise Unsupported('regex operator %s' % op)
    return out


def nullable(nodes):
    for n in nodes:
        if n[0] == 'set':
            return False
        if n[0] == 'group' and not nullable(n[2]) or n[0] == 'alt' and not any(nullable(a) for a in n[1]) or n[0] == 'rep' and n[2] and not nullable(n[1]):
            return False
    return True


def required(nodes, acc):
    """Literal characters every match contains."""
    for n in nodes:
        if n[0] == 'set' and len(n[1].txt) == 1:
            acc.append(n[1])
        elif n[0] == 'group':
            required(n[2], acc)
        elif n[0] == 'rep' and n[2] > 0:
            required(n[1], acc)
        elif n[0] == 'alt' and len(n[1]) == 1:
            required(n[1][0], acc)
    return acc


def words(nodes, acc):
    """Texts that every match contains: runs of literal characters (the last entry of acc is the run being read)."""
    for n in nodes:
        if n[0] == 'set' and n[1].lit is not None:
            acc[-1] += n[1].lit
        elif n[0] == 'group':
            words(n[2], acc)
        elif n[0] == 'alt' and len(n[1]) == 1:
            words(n[1][0], acc)
        elif n[0] not in ('at', 'look'):
            acc.append('')
            if n[0] == 'rep' and n[2] > 0:
                words(n[1], acc)
                acc.append('')
    return acc


def width(nodes, alpha):
    """An upper bound on how many characters of the alphabet bounded items can take in a row."""
    w = 0
    for n in nodes:
        if n[0] == 'set':
            w += n[1].rel(alpha) != 'disj'
        elif n[0] == 'group':
            w += width(n[2], alpha)
        elif n[0] == 'alt':
            w += max(width(a, alpha) for a in n[1])
        elif n[0] == 'rep':
            b = width(n[1], alpha)
            if n[3] is None:
                w += b if len(n[1]) == 1 and n[1][0][0] == 'set' else 2 * b
            else:
                w += b * n[3]
    return w


_cache = {}


class Pattern:
    def __init__(self, pat, flags):
        self.pat = pat
        p = P.parse(pat, flags)
        self.flags = p.state.flags
        if self.flags & (re.M | re.X | re.A | re.L):
            raise Unsupported('regex flags')
        self.nodes = compile_(p, self.flags)
        self.ngroups = p.state.groups - 1
        self.names = dict(p.state.groupdict)
        self.req = required(self.nodes, [])
        self.words = [w for w in words(self.nodes, ['']) if len(w) > 1]
        self.looks = has_look(self.nodes)


def has_look(nodes):
    return any(n[0] == 'look' or n[0] == 'at' and n[1] in (K.AT_BOUNDARY, K.AT_NON_BOUNDARY) or n[0] == 'group' and has_look(n[2]) or n[0] == 'rep' and has_look(n[1])
               or n[0] == 'alt' and any(has_look(a) for a in n[1]) for n in nodes)


def compile_pattern(pat, flags=0):
    if hasattr(flags, 'value'):
        flags = flags.value
    k = (pat, int(flags))
    if k not in _cache:
        _cache[k] = Pattern(pat, int(flags))
    return _cache[k]


def starts(cont, alpha):
    """Can the rest of the pattern take a character of the alphabet next, or accept?"""
    while cont is not None:
        n, cont = cont
        r = node_starts(n, alpha)
        if r[0]:
            return True
        if not r[1]:
            return False
    return True


def nodes_start(nodes, alpha):
    for n in nodes:
        r = node_starts(n, alpha)
        if r[0]:
            return True, False
        if not r[1]:
            return False, False
    return False, True


def node_starts(n, alpha):
    """(can take a character of the alphabet first, can be empty at a place before such a character)"""
    if n[0] == 'set':
        return n[1].rel(alpha) != 'disj', False
    if n[0] == 'group':
        return nodes_start(n[2], alpha)
    if n[0] == 'alt':
        rs = [nodes_start(a, alpha) for a in n[1]]
        return any(r[0] for r in rs), any(r[1] for r in rs)
    if n[0] == 'rep':
        a, e = nodes_start(n[1], alpha)
        return a and n[3] != 0, e or n[2] == 0
    if n[0] == 'at':
        return (False, False) if n[1] in (K.AT_END, K.AT_END_STRING) else (False, True)
    if n[0] in ('endgroup', 'look'):
        return False, True
    if n[0] == 'repc':
        return nodes_start(n[1][1], alpha)[0] and (n[1][3] is None or n[2] < n[1][3]), True
    return True, True


class Matcher:
    def __init__(self, pat, cells):
        self.p, self.cells = pat, cells
        self.n = len(cells)
        self.steps = 0
        self.begin = None

    def m(self, cont, pos, groups):
        self.steps += 1
        if self.steps > 200000:
            raise Unsupported('regex: too many steps')
        if cont is None:
            yield pos, groups
            return
        n, rest = cont
        k = n[0]
        if k == 'set':
            try:
                q = self.one(n[1], pos)
            except (Unsupported, Refine) as e:
                if self.may(cont, pos) and (isinstance(e, Refine) or not self.hopeless(rest, pos, groups)):
                    raise
                q = None
            if q is not None:
                yield from self.m(rest, q, groups)
        elif k == 'group':
            yield from self.m(seq(n[2], (('endgroup', n[1], pos), rest)), pos, groups)
        elif k == 'endgroup':
            g = dict(groups)
            g[n[1]] = (n[2], pos)
            yield from self.m(rest, pos, g)
        elif k == 'alt':
            for a in n[1]:
                yield from self.m(seq(a, rest), pos, groups)
        elif k == 'at':
            if self.at(n[1], pos):
                yield from self.m(rest, pos, groups)
        elif k == 'look':
            if self.look(n, pos) == n[3]:
                yield from self.m(rest, pos, groups)
        elif k == 'rep':
            if len(n[1]) == 1 and n[1][0][0] == 'set':
                yield from self.run(n, rest, pos, groups)
            else:
                yield from self.rep(n, rest, pos, groups, 0, -1)
        elif k == 'repc':
            if pos == n[3] and n[1][3] != 1:
                raise Unsupported('regex: repetition of an empty match')
            yield from self.rep(n[1], rest, pos, groups, n[2], n[3])
        else:
            raise Unsupported('regex node %s' % k)

    def hopeless(self, rest, pos, groups):
        """Even if the unknown character matches, the rest does not."""
        c = self.cells[pos]
        return not isinstance(c, str) and c.lo == c.hi == 1 and not any(True for _ in self.m(rest, pos + 1, groups))

    def may(self, cont, pos):
        """False: the characters that have to follow cannot be these, however long the unknown pieces are."""
        while True:
            cont = past(cont)
            if cont is None or cont[0][0] != 'set':
                return True
            if pos >= self.n:
                return False
            c = self.cells[pos]
            if not isinstance(c, str):
                break
            if not cont[0][1].test(c):
                return False
            cont, pos = cont[1], pos + 1
        k, w = 0, ''
        while True:
            if k >= (c.lo if pos != self.begin else 1) and self.may(cont, pos + 1):
                return True
            if cont is None or cont[0][0] != 'set':
                return True
            if c.hi is not None and k >= c.hi or cont[0][1].rel(c.alpha) == 'disj':
                return False
            w = self.word(w, cont[0][1], c)
            if w and any(a in w for a in getattr(c, 'avoid', ())):
                return False
            cont, k = past(cont[1]), k + 1

    @staticmethod
    def word(w, s, c):
        """The only word of the chunk's alphabet that the sets spell."""
        if w is None:
            return None
        x = [a for a in c.alpha if s.test(a)] if c.alpha is not None else []
        return w + x[0] if len(x) == 1 else None

    def shut(self, cont, p):
        """The chunk at p avoids a word that has to follow: nothing of `cont` starts inside it."""
        c = self.cells[p]
        av = getattr(c, 'avoid', ())
        k, w, cont = 0, '', past(cont)
        while av and cont is not None and cont[0][0] == 'set':
            if k and self.may(cont, p + 1):
                return False
            w = self.word(w, cont[0][1], c)
            if w is None:
                return False
            if any(a in w for a in av) or cont[0][1].rel(c.alpha) == 'disj':
                return True
            cont, k = past(cont[1]), k + 1
        return False

    def one(self, s, pos):
        if pos >= self.n:
            return None
        c = self.cells[pos]
        if isinstance(c, str):
            return pos + 1 if s.test(c) else None
        r = s.rel(c.alpha)
        if r == 'disj':
            return None
        if c.lo == c.hi == 1:
            if r == 'sub':
                return pos + 1
            raise Unsupported('regex: an unknown character may or may not match %s' % s.txt)
        if r == 'part' and not (c.hi is not None and c.hi <= 4 and not isinstance(c, SubCell)):
            raise Unsupported('regex: unknown text may or may not match %s' % s.txt)
        raise Refine(pos)

    def at(self, w, pos):
        if w in (K.AT_BEGINNING, K.AT_BEGINNING_STRING):
            return pos == 0
        if w in (K.AT_END, K.AT_END_STRING):
            if pos == self.n:
                return True
            c = self.cells[pos]
            if w is K.AT_END and pos == self.n - 1 and (c == '\n' if isinstance(c, str) else c.alpha is None or '\n' in c.alpha):
                if isinstance(c, str):
                    return True
                raise Unsupported('regex: end of line in an unknown text')
            return False
        if w in (K.AT_BOUNDARY, K.AT_NON_BOUNDARY):
            def word(i):
                if not 0 <= i < self.n:
                    return False
                c = self.cells[i]
                s = WORD
                if isinstance(c, str):
                    return s.test(c)
                r = s.rel(c.alpha)
                if r == 'part':
                    raise Unsupported('regex: word boundary at an unknown text')
                return r == 'sub'
            b = word(pos - 1) != word(pos)
            return b if w is K.AT_BOUNDARY else not b
        raise Unsupported('regex anchor %s' % w)

    def look(self, n, pos):
        d, nodes = n[1], n[2]
        if d > 0:
            return any(True for _ in self.m(seq(nodes, None), pos, {}))
        # look-behind of one character
        if len(nodes) == 1 and nodes[0][0] == 'set':
            if pos == 0:
                return False
            c = self.cells[pos - 1]
            if isinstance(c, str):
                return nodes[0][1].test(c)
            r = nodes[0][1].rel(c.alpha)
            if r == 'part':
                raise Unsupported('regex: look-behind at an unknown text')
            return r == 'sub'
        raise Unsupported('regex look-behind')

    def run(self, n, rest, pos, groups):
        s, lo, hi, greedy = n[1][0][1], n[2], n[3], n[4]
        # positions after 0, 1, 2, ... items; an unknown chunk counts from its lower bound
        ends, count, exact = [(pos, 0)], 0, True
        p = pos
        while p < self.n and (hi is None or count < hi):
            c = self.cells[p]
            if isinstance(c, str):
                if not s.test(c):
                    break
                p, count = p + 1, count + 1
            else:
                r = s.rel(c.alpha)
                if r == 'disj':
                    break
                if c.lo == c.hi == 1:
                    if r == 'part':
                        raise Unsupported('regex: an unknown character may or may not match %s' % s.txt)
                    p, count = p + 1, count + 1
                else:
                    if r == 'part':
                        raise Unsupported('regex: unknown text may or may not match %s' % s.txt)
                    if hi is not None or count + c.lo < lo:
                        raise Refine(p)
                    if starts(rest, c.alpha) and not (rest is None or accept_only(rest)) and not self.shut(rest, p):
                        # giving back part of the chunk (or stopping inside it) could matter
                        raise Refine(p) if not isinstance(c, SubCell) else Unsupported('regex: backtracking into an unknown text')
                    if not greedy and accept_only(rest):
                        raise Refine(p)
                    p, count = p + 1, count + c.lo
            ends.append((p, count))
        ok = [e for e, k in ends if k >= lo]
        for e in (reversed(ok) if greedy else ok):
            yield from self.m(rest, e, groups)

    def rep(self, n, rest, pos, groups, count, last):
        lo, hi, greedy = n[2], n[3], n[4]

        def more():
            if (hi is None or count < hi) and pos != last:
                yield from self.m(seq(n[1], (('repc', n, count + 1, pos), rest)), pos, groups)

        def stop():
            if count >= lo:
                yield from self.m(rest, pos, groups)
        if greedy:
            yield from more()
            yield from stop()
        else:
            yield from stop()
            yield from more()


WORD = CSet(lambda c: c.isalnum() or c == '_', 'word')


def past(cont):
    """Without the ends of groups."""
    while cont is not None and cont[0][0] == 'endgroup':
        cont = cont[1]
    return cont


def accept_only(cont):
    """Only bookkeeping is left: the match is accepted here without looking further."""
    while cont is not None:
        n, cont = cont
        if n[0] != 'endgroup':
            return False
    return True


def seq(nodes, rest):
    for n in reversed(nodes):
        rest = (n, rest)
    return rest


def cells_of(I, t):
    out = []
    for p in ([t] if isinstance(t, str) else t.pieces):
        if isinstance(p, str):
            out += list(p)
        elif p.lo == p.hi == 0:
            continue
        else:
            if p.lo == 0:
                n = p.len()
                if I.choose(n == 0):
                    continue
                I.assume(n >= 1)
                p = p.at_least(1)
            out.append(p)
    return out


class MatchV:
    """A match object."""
    def __init__(self, pat, cells, span, groups):
        self.pat, self.cells, self.span, self.groups = pat, cells, span, groups

    def text(self, a, b):
        return TextV.make(self.cells[a:b])

    def group(self, I, k):
        if isinstance(k, str):
            if k not in self.pat.names:
                I.raise_(IndexError, 'no such group')
            k = self.pat.names[k]
        if not isinstance(k, int) or not 0 <= k <= self.pat.ngroups:
            I.raise_(IndexError, 'no such group')
        if k == 0:
            return self.text(*self.span)
        if k not in self.groups:
            return None
        return self.text(*self.groups[k])

    def sym_truth(self, I):
        return True

    def sym_u(self, I):
        return I.fresh(U, 'match')

    def sym_index(self, I, k):
        return self.group(I, k)

    def sym_method(self, I, name, args, kw):
        if name == 'group':
            if len(args) <= 1:
                r = self.group(I, args[0] if args else 0)
                return UNDEF if r is None else r
            return tuple(self.group(I, k) for k in args)
        if name == 'groups':
            return tuple((lambda x: (args[0] if args else None) if x is None else x)(self.group(I, i)) for i in range(1, self.pat.ngroups + 1))
        if name == 'groupdict':
            return I.new_dict({k: self.group(I, k) for k in self.pat.names})
        if name in ('start', 'end', 'span'):
            k = args[0] if args else 0
            if isinstance(k, str):
                k = self.pat.names[k]
            a, b = self.span if k == 0 else self.groups.get(k, (None, None))
            if a is None:
                return -1 if name != 'span' else (-1, -1)
            ln = lambda i: TextV(self.cells[:i]).sym_len(I) if i else 0
            return ln(a) if name == 'start' else ln(b) if name == 'end' else (ln(a), ln(b))
        raise Unsupported('match.%s' % name)


def find(I, pat, cells, start, how):
    """The first match at or after cell `start`: (span, groups, cells) or None.  The cells may have been refined."""
    while True:
        M = Matcher(pat, cells)
        try:
            for s in ([start] if how != 'search' else range(start, len(cells) + 1)):
                if s < len(cells) and isinstance(cells[s], SubCell) and cells[s].nostart and s > start:
                    continue
                c = cells[s] if s < len(cells) else None
                if pat.looks and isinstance(c, Chunk) and not (c.lo == c.hi == 1) and how == 'search':
                    # a look-behind may see the unknown text itself: only when it cannot start inside
                    if nodes_start(pat.nodes, c.alpha) != (False, False) and not kept_out(pat.nodes, c.alpha):
                        raise Unsupported('regex: look-around inside an unknown text')
                M.begin = s if not pat.looks else None      # a match that starts here may start inside the piece
                for e, g in M.m(seq(pat.nodes, None), s, {}):
                    if how == 'fullmatch' and e != len(cells):
                        continue
                    return (s, e), g, cells
            return None
        except Refine as r:
            c = cells[r.i]
            new = split_chunk(I, c, max(1, width(pat.nodes, c.alpha)))
            cells = cells[:r.i] + new + cells[r.i + 1:]
            if r.i < start:
                start += len(new) - 1


def kept_out(nodes, alpha):
    """The pattern begins with a negative look-behind that every character of the alphabet defeats."""
    n = nodes[0] if nodes else None
    return n is not None and n[0] == 'look' and n[1] < 0 and not n[3] and len(n[2]) == 1 and n[2][0][0] == 'set' and n[2][0][1].rel(alpha) == 'sub'


def ruled_out(pat, cells):
    """A character that every match contains occurs nowhere."""
    for s in pat.req:
        if not any(s.test(c) if isinstance(c, str) else s.rel(c.alpha) != 'disj' for c in cells):
            return True
    return any(not spelled(cells, w) and lacks(cells, w) for w in pat.words)


def spelled(cells, w):
    """Known characters spell the word somewhere."""
    return any(all(isinstance(c, str) and c == x for c, x in zip(cells[i:i + len(w)], w)) and i + len(w) <= len(cells) for i in range(len(cells)))


def search(I, pat, t, how='search'):
    cells = cells_of(I, t)
    if ruled_out(pat, cells):
        return None
    r = find(I, pat, cells, 0, how)
    if r is None:
        return None
    span, g, cells = r
    return MatchV(pat, cells, span, g)


def all_matches(I, pat, t):
    cells = cells_of(I, t)
    out = []
    if ruled_out(pat, cells):
        return cells, out
    pos = 0
    while True:
        n0 = len(cells)
        r = find(I, pat, cells, pos, 'search')
        if r is None:
            return cells, out
        (a, b), g, cells = r
        if a == b:
            raise Unsupported('regex: empty match')
        out.append(((a, b), g))
        pos = b


def expand(I, m, repl):
    if isinstance(repl, str):
        if '\\' not in repl:
            return repl
        tpl = template(repl, m.pat)
        out = []
        for x in tpl:
            if isinstance(x, int):
                v = m.group(I, x)
                out.append('' if v is None else v)
            else:
                out.append(x)
        return TextV.make(out)
    if isinstance(repl, TextV):
        return repl
    return I.call(repl, [m], {})


def template(repl, pat):
    """The replacement template as literals and group numbers, by CPython's own template parser."""
    r = re.compile(pat.pat, pat.flags)
    t = P.parse_template(repl, r)
    if isinstance(t, tuple):
        groups, lits = t
        out = list(lits)
        for i, g in groups:
            out[i] = g
        return [x for x in out if x is not None]
    return [x for x in t if x != '']


def sub(I, pat, repl, t, count=0):
    # matches are found one by one in the original text
    cells = cells_of(I, t)
    if ruled_out(pat, cells):
        return t, 0
    out, pos, k = [], 0, 0
    while not count or k < count:
        r = find(I, pat, cells, pos, 'search')
        if r is None:
            break
        (a, b), g, cells = r
        if a == b:
            raise Unsupported('regex: empty match')
        out += cells[pos:a]
        v = expand(I, MatchV(pat, cells, (a, b), g), repl)
        if isinstance(v, (str, TextV)):
            out.append(v)
        else:
            raise Unsupported('regex: replacement %r' % (v,))
        pos = b
        k += 1
    if not k:
        return t, 0
    return TextV.make(out + cells[pos:]), k


def call_re(I, f, args, kw):
    """re.f(pattern, ..., text, flags) on a text; None when not handled."""
    args = list(args)
    names = {'search': ['pattern', 'string', 'flags'], 'match': ['pattern', 'string', 'flags'], 'fullmatch': ['pattern', 'string', 'flags'],
             'sub': ['pattern', 'repl', 'string', 'count', 'flags'], 'subn': ['pattern', 'repl', 'string', 'count', 'flags'],
             'findall': ['pattern', 'string', 'flags'], 'finditer': ['pattern', 'string', 'flags'], 'split': ['pattern', 'string', 'maxsplit', 'flags']}.get(f)
    if names is None:
        return None
    d = dict(zip(names, args))
    d.update(kw)
    pat, s = d.get('pattern'), d.get('string')
    flags = d.get('flags', 0)
    if isinstance(pat, PatV):
        pat = pat.p
    elif isinstance(pat, str):
        pat = compile_pattern(pat, flag_value(flags))
    else:
        return None
    if s is None or is_num(s):
        I.raise_(TypeError)
    if not isinstance(s, (str, TextV)):
        return None
    if f in ('search', 'match', 'fullmatch'):
        r = search(I, pat, s, f)
        return UNDEF if r is None else r
    if f in ('sub', 'subn'):
        r, k = sub(I, pat, d.get('repl'), s, d.get('count', 0))
        return r if f == 'sub' else (r, k)
    if f in ('findall', 'finditer'):
        cells, ms = all_matches(I, pat, s)
        ms = [MatchV(pat, cells, sp, g) for sp, g in ms]
        if f == 'finditer':
            return tuple(ms)
        out = []
        for m in ms:
            gs = [('' if x is None else x) for x in (m.group(I, i) for i in range(1, pat.ngroups + 1))]
            out.append(m.group(I, 0) if not gs else gs[0] if len(gs) == 1 else tuple(gs))
        return I.new_list(out)
    if f == 'split':
        cells, ms = all_matches(I, pat, s)
        if pat.ngroups or d.get('maxsplit', 0):
            raise Unsupported('re.split')
        out, pos = [], 0
        for (a, b), g in ms:
            out.append(TextV.make(cells[pos:a]))
            pos = b
        out.append(TextV.make(cells[pos:]))
        return I.new_list(out)


FLAGS = {'re.I': re.I, 're.IGNORECASE': re.I, 're.S': re.S, 're.DOTALL': re.S, 're.M': re.M, 're.MULTILINE': re.M, 're.X': re.X, 're.VERBOSE': re.X, 're.A': re.A,
         're.ASCII': re.A, 're.U': re.U, 're.UNICODE': re.U, 're.NOFLAG': 0}


def flag_value(f):
    if isinstance(f, ExtV):
        if f.dotted in FLAGS:
            return int(FLAGS[f.dotted])
        raise Unsupported('regex flags')
    if isinstance(f, int):
        return int(f)
    raise Unsupported('regex flags')


class PatV:
    def __init__(self, p):
        self.p = p

    def sym_u(self, I):
        return z3.Const('pattern:%r' % self.p.pat, U)

    def sym_truth(self, I):
        return True

    def sym_method(self, I, name, args, kw):
        r = call_re(I, name, [self] + list(args), kw)
        if r is None:
            raise Unsupported('pattern.%s' % name)
        return r
