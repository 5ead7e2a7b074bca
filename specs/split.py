"""P12: split_tuple on texts of any length."""
from .chartext import *

STRIPC = UF('strip_commas', U, U)


def unit_split_tuple(u, part):
    split_tuple(u, 'no expected type', None)


def unit_split_tuple_list(u, part):
    split_tuple(u, 'list expected', BuiltinV('list'))


def unit_split_tuple_tuple(u, part):
    split_tuple(u, 'tuple expected', BuiltinV('tuple'))


def split_tuple(u, nm, et):
    g = Ghost()
    w = CharWorld(g)
    u.timeout_ms = 5000
    I = u.interp(w)
    n = z3.Int('n')
    text = CharText(g, z3.IntVal(0), n)
    arg = Ob(z3.Const('answer', U), 'str')

    def strip_commas(I, e):
        v = list(e.values())[0]
        if isinstance(v, Ob) and v.t.eq(arg.t):
            I.assume(n >= 0)
            return text
        raise Unsupported('thousands commas of another text')
    w.contracts[NO + '_strip_properly_formatted_commas'] = C(strip_commas)
    w.assumed.add('_strip_properly_formatted_commas returns the text without the commas that group thousands (regular expression; checked by the companion)')
    q = z3.Int('q')
    WF = [n >= 0, g.base(z3.IntVal(0)), z3.ForAll([q], z3.Implies(z3.And(q >= 0, q <= n), g.D(0, q) >= 0), patterns=[g.D(0, q)]), g.D(0, n) == 0]
    M = z3.ForAll([q], z3.Implies(z3.And(q >= 1, q < n), g.D(0, q) != 0), patterns=[g.D(0, q)])
    at = lambda i, c: g.CH(i) == I.lit(c)
    last = z3.simplify(n - 1)
    pair = {'list': ('[', ']'), 'tuple': ('(', ')'), 'set': ('{', '}')}
    P = {k: z3.And(at(0, a), at(last, b)) for k, (a, b) in pair.items()}
    anyp = z3.Or(*P.values())
    cases = {'outer brackets removed': (z3.And(n > 2, M, anyp), z3.IntVal(1), last),
             'nothing removed': (z3.And(z3.Not(z3.And(M, anyp))), z3.IntVal(0), n)}
    res = u.explore(I, NO + 'split_tuple', [arg] + ([et] if et is not None else []))
    for cn, (h, s, e) in cases.items():
        u.cover('%s: %s' % (nm, cn), WF + [h])
    for i, r in enumerate(res):
        imp = bool(r.taint)
        for cn, (h, s, e) in cases.items():
            tag = '%s, %s, %s' % (nm, cn, path_tag(i))
            H = WF + [h, g.base(s)] + r.pc
            K, L = g.K(s, e), g.LAST(s, e)
            if r.kind == 'raise':
                u.prove(tag + ': a balanced text does not raise', H, False, imprecise=imp)
                continue
            I.ex = None
            v = r.value
            I.heap = dict(r.snap[1])
            if isinstance(v, (CharText, StripText)) or isinstance(v, str):
                u.prove(tag + ': only a text without a comma outside brackets is returned whole', H, z3.Or(K == 0, z3.And(K == 1, L == e)), imprecise=imp)
                if not isinstance(v, str):
                    u.prove(tag + ': the text returned is the text between the brackets', H + [K == 0], I.to_u(v) == g.SUB(s, e), imprecise=imp)
                else:
                    u.prove(tag + ': the text returned is the text between the brackets', H + [K == 0], e - s == len(v), imprecise=imp)
                continue
            k = I.kind_of(v)
            if k not in ('list', 'tuple', 'set'):
                u.prove(tag + ': a text or a collection is returned', H, False, imprecise=imp)
                continue
            c = I.items_of(v)
            c = c if isinstance(c, SeqV) else I.as_seq(tuple(c))
            u.prove(tag + ': a collection only for a text with a comma outside brackets', H, K >= 1, imprecise=imp)
            want = et.name if et is not None else None
            if want:
                u.prove(tag + ': the expected kind', H, k == want, imprecise=imp)
            elif cn == 'nothing removed':
                u.prove(tag + ': without outer brackets a set', H, k == 'set', imprecise=imp)
            else:
                u.prove(tag + ': the kind follows from the brackets', H, P[k], imprecise=imp)
            H = H + [L < e]
            u.prove(tag + ': the number of elements', H, c.n == K + 1, imprecise=imp)
            x = z3.Int('x')
            u.prove(tag + ': every element in its place, stripped', H + [x >= 0, x < K], I.to_u(c.get(x)) == g.STRIP(g.SUB(g.ST(s, x), g.EN(s, x))), imprecise=imp)
            u.prove(tag + ': the last element reaches the end, stripped', H, I.to_u(c.get(z3.simplify(K))) == g.STRIP(g.SUB(L, e)), imprecise=imp)


def unit_split_args(u, part):
    """The arguments of \\max(..), \\gcd(..): cut at the commas outside all brackets, nothing lost."""
    g = Ghost()
    w = CharWorld(g)
    u.timeout_ms = 5000
    I = u.interp(w)
    n = z3.Int('n')
    z = z3.IntVal(0)
    q = z3.Int('q')
    WF = [n >= 0, g.base(z), z3.ForAll([q], z3.Implies(z3.And(q >= 0, q <= n), g.D(0, q) >= 0), patterns=[g.D(0, q)])]
    res = u.explore(I, L2 + 'split_args', [CharText(g, z, n)], prepare=lambda: I.assume(n >= 0))
    u.cover('texts exist', WF)
    K, L = g.K(0, n), g.LAST(0, n)
    for i, r in enumerate(res):
        imp = bool(r.taint)
        H = WF + r.pc
        tag = path_tag(i)
        if r.kind == 'raise':
            u.prove(tag + ': no exception', H, False, imprecise=imp)
            continue
        I.heap = dict(r.snap[1])
        k = I.kind_of(r.value)
        if k not in ('list', 'tuple'):
            u.prove(tag + ': a list is returned', H, False, imprecise=imp)
            continue
        c = I.items_of(r.value)
        c = c if isinstance(c, SeqV) else I.as_seq(tuple(c))
        x = z3.Int('x')
        sub = lambda v: [I.to_u(v), g.STRIP(I.to_u(v))]
        u.prove(tag + ': one argument more than commas outside brackets', H, c.n == K + 1, imprecise=imp)
        piece = g.SUB(g.ST(0, x), g.EN(0, x))
        e = I.to_u(c.get(x))
        u.prove(tag + ': every argument in its place', H + [x >= 0, x < K], z3.Or(e == piece, e == g.STRIP(piece)), imprecise=imp)
        e = I.to_u(c.get(z3.simplify(K)))
        u.prove(tag + ': the last argument reaches the end', H, z3.Or(e == g.SUB(L, n), e == g.STRIP(g.SUB(L, n))), imprecise=imp)
