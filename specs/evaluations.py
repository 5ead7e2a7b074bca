"""Contracts of math_evaluation/core/evaluations.py: is_equiv and the stages of is_latex_equiv."""
from .common import *

# ---------------------------------------------------------------- vocabulary of the contracts
NSET = UF('norm_is_set', U, BOOL)          # the answer has several readings
NCNT = UF('norm_count', U, INT)
NITEM = UF('norm_item', U, INT, U)
NORM = UF('norm', U, U)                    # its single reading
LEQ = UF('LEQ', U, U, BOOL)                # is_latex_equiv accepts
LERR = UF('LEQ_raises', U, U, BOOL)
EQ = UF('EQ', U, U, BOOL)                  # is_equiv accepts


def c_string_normalize(I, e):
    v = list(e.values())[0]
    if v is None:
        return None
    if not isstr(I, v):
        I.may_raise('string_normalize of a non-string')
        return v
    t = I.to_u(v)
    if I.choose(NSET(t)):
        n = NCNT(t)
        I.assume(n >= 1)
        return SeqV('set', n, lambda i: Ob(NITEM(t, rv(i)), 'str'), UF('norm_set', U, U)(t))
    return Ob(NORM(t), 'str')


def two(e):
    vs = list(e.values())
    return vs[0], vs[1]


def c_leq(I, e):
    a, b = two(e)
    if not (isstr(I, a) and isstr(I, b)):
        I.may_raise('is_latex_equiv of non-strings')
        return I.fresh(BOOL, 'leq')
    x, y = I.to_u(a), I.to_u(b)
    if I.choose(LERR(x, y)):
        raise PyExc(ExcV(None, (), 'is_latex_equiv'))
    return LEQ(x, y)


def c_is_equiv(I, e):
    a, b = two(e)
    for v in (a, b):
        if v is not None and not isstr(I, v):
            I.may_raise('is_equiv of a non-string')
            return I.fresh(BOOL, 'eq')
    if a is None or b is None:
        return a is None and b is None
    return EQ(I.to_u(a), I.to_u(b))


def readings(t):
    """(number, item) of the readings of the answer t."""
    return (z3.If(NSET(t), NCNT(t), 1), lambda i: z3.If(NSET(t), NITEM(t, i), NORM(t)))


def norm_facts(*ts):
    return [z3.Implies(NSET(t), NCNT(t) >= 1) for t in ts]


class EqWorld(CmpWorld):
    def eq(self, a, b):
        # a normalised set is never equal to a string
        ka = a.kind if isinstance(a, SeqV) else None
        kb = b.kind if isinstance(b, SeqV) else None
        if ka == 'set' and isstr(self.I, b) or kb == 'set' and isstr(self.I, a):
            return False
        return None


def unit_is_equiv(u, part):
    w = EqWorld()
    I = u.interp(w)
    w.contracts[NO + 'string_normalize'] = C(c_string_normalize)
    w.contracts[EV + 'is_latex_equiv'] = C(c_leq)
    a, b = const_str('gt'), const_str('gv')
    verbose = z3.Bool('verbose')
    # missing answers
    for x, y, exp in ((None, None, True), (None, b, False), (a, None, False)):
        for i, r in enumerate(u.explore(I, EV + 'is_equiv', [x, y, verbose])):
            t = 'missing(%s,%s) path %d' % (x is None, y is None, i)
            if part in ('P01', 'P02'):
                u.prove(t + ': does not raise', r.pc, r.kind != 'raise', imprecise=bool(r.taint))
            if r.kind == 'raise':
                continue
            if part == 'P01':
                boolean_verdict(u, r, t)
            if part == 'P02':
                u.prove(t + ': verdict', r.pc, zb(I.truth(r.value)) == zb(exp), imprecise=bool(r.taint))
    ta, tb = a.t, b.t
    st = lambda t: I.opaque_str('strip', Ob(t, 'str')).t
    same = st(ta) == st(tb)
    na, ia = readings(ta)
    nb, ib = readings(tb)
    k, l = z3.Ints('k l')
    pair = lambda f: z3.Exists([k, l], z3.And(k >= 0, k < na, l >= 0, l < nb, f(ia(k), ib(l))))
    both1 = z3.And(z3.Not(NSET(ta)), z3.Not(NSET(tb)))
    same_norm = z3.And(both1, NORM(ta) == NORM(tb))
    good = lambda x, y: z3.And(LEQ(x, y), z3.Not(LERR(x, y)))
    noerr = z3.ForAll([k, l], z3.Implies(z3.And(k >= 0, k < na, l >= 0, l < nb), z3.Not(LERR(ia(k), ib(l)))))
    facts = norm_facts(ta, tb)
    rs = u.explore(I, EV + 'is_equiv', [a, b, verbose])
    u.cover('identical answers', [same] + facts)
    u.cover('several readings, one pair equal', [z3.Not(same), NSET(ta), pair(good)] + facts)
    for i, r in enumerate(rs):
        imp = bool(r.taint)
        h = r.pc + facts
        if part in ('P01', 'P02', 'P03', 'P04'):
            u.prove('path %d: does not raise' % i, h, r.kind != 'raise', imprecise=imp, info='%r' % (r.value,))
        if r.kind == 'raise':
            continue
        if part == 'P01':
            boolean_verdict(u, r, 'path %d' % i)
            continue
        v = truthy(I, r.value)
        if part == 'P02':
            u.prove('path %d: equal up to surrounding whitespace => accepted' % i, h + [same], v, imprecise=imp)
            u.prove('path %d: same single reading => accepted' % i, h + [same_norm], v, imprecise=imp)
        if part in ('P03', 'P04'):
            u.prove('path %d: accepted => same text or some pair of readings equal' % i, h + [v], z3.Or(same, same_norm, pair(good)), imprecise=imp)
        if part == 'P04':
            u.prove('path %d: some pair of readings equal => accepted' % i, h + [pair(good), noerr], v, imprecise=imp)


# ---------------------------------------------------------------- is_latex_equiv
STG = {s: (UF(s, U, U, BOOL), UF(s + '_splitted', U, U, BOOL), UF(s + '_raises', U, U, BOOL)) for s in ('IV', 'TUP', 'MAT')}
SYM = UF('SYM', U, U, BOOL)


def c_stage(s):
    def f(I, e):
        a, b = two(e)
        x, y = I.to_u(a), I.to_u(b)
        ok, sp, er = STG[s]
        if I.choose(er(x, y)):
            raise PyExc(ExcV(None, (), s))
        I.assume(z3.Implies(ok(x, y), sp(x, y)))
        return (ok(x, y), sp(x, y))
    return C(f)


def unit_is_latex_equiv(u, part):
    w = EqWorld()
    I = u.interp(w)
    for s, q in (('IV', 'intervals'), ('TUP', 'tuple'), ('MAT', 'matrix')):
        w.contracts[EV + 'is_equiv_possible_' + q] = c_stage(s)
    w.contracts[LP + 'are_equal_under_sympy'] = C(lambda I, e: SYM(I.to_u(two(e)[0]), I.to_u(two(e)[1])))
    w.contracts[NO + '_str_is_mat'] = C(lambda I, e: I.contains('matrix', list(e.values())[0]))
    a, b = const_str('gt'), const_str('gv')
    x, y = a.t, b.t
    has = lambda c, s: zb(I.contains(c, s))
    rs = u.explore(I, EV + 'is_latex_equiv', [a, b, z3.Bool('verbose')])
    BR = z3.Or(*[has(c, a) for c in '()[]'])
    MS = z3.Or(has('matrix', a), has('matrix', b))
    iv, tup, mat, sym = STG['IV'][0](x, y), STG['TUP'][0](x, y), STG['MAT'][0](x, y), SYM(x, y)
    split = z3.If(MS, STG['MAT'][1](x, y), STG['TUP'][1](x, y))
    empty = y == I.lit('')
    # an answer whose interval reading needs no bracket is not fixed by the contract
    acc = z3.Or(tup, z3.And(MS, mat))
    for i, r in enumerate(rs):
        imp = bool(r.taint)
        h = r.pc + [z3.Implies(STG[s][0](x, y), STG[s][1](x, y)) for s in STG]
        if r.kind == 'raise':
            u.prove('path %d: raises only when a stage raises' % i, h, r.value.cls is None or z3.Or(*[STG[s][2](x, y) for s in STG]), imprecise=imp,
                    info='%r' % (r.value,))
            continue
        v = truthy(I, r.value)
        if part == 'P02':
            u.prove('path %d: an empty given answer is rejected' % i, h + [empty], z3.Not(v), imprecise=imp)
        if part == 'P01':
            u.prove('path %d: the verdict is a bool' % i, h, E.is_bool(r.value), imprecise=imp)
        if part == 'P03':
            u.prove('path %d: accepted => some stage accepted' % i, h + [v], z3.And(z3.Not(empty), z3.Or(iv, tup, z3.And(MS, mat), sym)), imprecise=imp)
        if part in ('P05', 'P06', 'P07'):
            u.prove('path %d: a collection verdict is final' % i, h + [v, z3.Not(iv), z3.Not(acc)], z3.And(z3.Not(split), sym), imprecise=imp)
        if part in ('P05', 'P06'):
            u.prove('path %d: equal collections are accepted' % i, h + [tup, z3.Not(empty)], v, imprecise=imp)
        if part == 'P07':
            u.prove('path %d: equal matrices are accepted' % i, h + [MS, mat, z3.Not(empty)], v, imprecise=imp)
        if part == 'P08':
            u.prove('path %d: equal intervals are accepted' % i, h + [BR, iv, z3.Not(empty)], v, imprecise=imp)
        if part in ('P09', 'P10', 'P11'):
            u.prove('path %d: equal parsed values are accepted' % i, h + [sym, z3.Not(empty), z3.Not(split), z3.Not(STG['TUP'][1](x, y)),
                                                                         z3.Not(STG['IV'][1](x, y))], v, imprecise=imp)


# ---------------------------------------------------------------- intervals
IVN = UF('iv_none', U, BOOL)
IVV = UF('iv_value', U, U)
CMP = UF('iv_compare', U, U, INT)


class IvWorld(EqWorld):
    def ob_method(self, o, name, args, kw):
        if o.ty == 'interval' and name == 'compare' and isinstance(args[0], Ob):
            return CMP(o.t, args[0].t)
        return None

    def eq(self, a, b):
        if isinstance(a, Ob) and a.ty == 'interval' and isinstance(b, Ob) and b.ty == 'interval':
            return CMP(a.t, b.t) == 0
        return EqWorld.eq(self, a, b)


def unit_intervals(u, part):
    w = IvWorld()
    I = u.interp(w)

    def c_iv(I, e):
        t = I.to_u(list(e.values())[0])
        if I.choose(IVN(t)):
            return None
        return Ob(IVV(t), 'interval')
    w.contracts[NO + '_str_to_interval'] = C(c_iv)
    a, b = const_str('gt'), const_str('gv')
    x, y = a.t, b.t
    spec = z3.And(z3.Not(IVN(x)), z3.Not(IVN(y)), CMP(IVV(x), IVV(y)) == 0)
    for i, r in enumerate(u.explore(I, EV + 'is_equiv_possible_intervals', [a, b, z3.Bool('verbose')])):
        imp = bool(r.taint)
        u.prove('path %d: does not raise' % i, r.pc, r.kind != 'raise', imprecise=imp)
        if r.kind == 'raise':
            continue
        if not (isinstance(r.value, tuple) and len(r.value) == 2):
            u.prove('path %d: returns (verdict, splitted)' % i, r.pc, False, imprecise=imp)
            continue
        v = truthy(I, r.value[0])
        u.prove('path %d: accepted <=> both are intervals and they compare equal' % i, r.pc, v == spec, imprecise=imp)
        u.prove('path %d: accepted => splitted' % i, r.pc + [v], truthy(I, r.value[1]), imprecise=imp)


# ---------------------------------------------------------------- tuples, lists, sets
KIND = UF('split_kind', U, INT)            # 0 string, 1 list, 2 tuple, 3 set
CNT = UF('split_count', U, INT)
ELEM = UF('split_elem', U, INT, U)
REST = UF('split_rest', U, U)
SPERR = UF('split_raises', U, BOOL)


def c_split_tuple(I, e):
    v = list(e.values())[0]
    t = I.to_u(v)
    if I.choose(SPERR(t)):
        raise PyExc(ExcV(AssertionError, (), 'split_tuple'))
    k = I.choose_n([KIND(t) == j for j in range(4)])
    if k == 0:
        return Ob(REST(t), 'str')
    n = CNT(t)
    # a set has at least one element (its duplicates are merged), a list or tuple at least two
    I.assume(n >= (1 if k == 3 else 2))
    s = SeqV(('', 'list', 'tuple', 'set')[k], n, lambda i: Ob(ELEM(t, rv(i)), 'str'), UF('split_value', U, U)(t))
    return I.new_list(s) if k == 1 else s


class TupWorld(EqWorld):
    def match_contract(self, I, e):
        vs = list(e.values())
        I.log('match', vs[0], vs[1], vs[2], dict(I.heap))
        r = I.fresh(BOOL, 'matched')
        I.ex.log[-1] = I.ex.log[-1] + (r,)
        return r


def seq_of(I, heap, v):
    save = I.heap
    I.heap = heap
    try:
        return I.as_seq(v)
    finally:
        I.heap = save


def prove_matching(u, I, r, h, v, n, m, eqf, imp, tag):
    """The path's verdict is the perfect-matching predicate of exactly the table eqf on n x m with nothing used."""
    calls = [x for x in r.log if x[0] == 'match']
    if not calls:
        u.prove(tag + ': the verdict is decided by a one-to-one matching', h, z3.BoolVal(False), imprecise=True)
        return
    _, M, i0, used, heap, res = calls[-1]
    p, q = z3.Ints('p q')
    try:
        S = seq_of(I, heap, M)
        row = S.get(p)
        R = seq_of(I, heap, row)
        cell = R.get(q)
        us = seq_of(I, heap, used)
        rng = z3.And(p >= 0, p < n, q >= 0, q < m)
        u.prove(tag + ': verdict is the matching', h, v == res, imprecise=imp)
        u.prove(tag + ': matching table has a row per reference element', h, rv(S.n) == n, imprecise=imp)
        u.prove(tag + ': matching table has a column per given element', h + [p >= 0, p < n], rv(R.n) == m, imprecise=imp)
        u.prove(tag + ': table entry (p, q) is the equality of elements p and q', h + [rng], truthy(I, cell) == eqf(p, q), imprecise=imp)
        u.prove(tag + ': matching starts from the first element', h, rv(i0) == 0, imprecise=imp)
        u.prove(tag + ': no partner is used at the start', h + [q >= 0, q < m], z3.And(rv(us.n) == m, z3.Not(truthy(I, us.get(q)))), imprecise=imp)
    except Unsupported as e:
        u.notes.append('matching: %s' % e)
        u.prove(tag + ': matching table', h, z3.BoolVal(False), imprecise=True)


def unit_tuple(u, part):
    w = TupWorld()
    I = u.interp(w)
    w.contracts[EV + 'is_equiv'] = C(c_is_equiv)
    w.contracts[NO + 'split_tuple'] = C(c_split_tuple)
    w.contracts[LP + 'has_perfect_matching'] = C(w.match_contract)
    a, b = const_str('gt'), const_str('gv')
    x, y = a.t, b.t
    facts = []
    for t in (x, y):
        facts += [z3.Or(*[KIND(t) == j for j in range(4)]), z3.Implies(KIND(t) == 3, CNT(t) >= 1), z3.Implies(z3.And(KIND(t) != 3, KIND(t) != 0), CNT(t) >= 2)]
    j = z3.Int('jj')
    pw = z3.And(CNT(x) == CNT(y), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < CNT(x)), EQ(ELEM(x, j), ELEM(y, j)))))
    rs = u.explore(I, EV + 'is_equiv_possible_tuple', [a, b, z3.Bool('verbose')])
    u.cover('equal tuples', facts + [KIND(x) == 2, KIND(y) == 2, pw])
    seen_set = 0
    for i, r in enumerate(rs):
        imp = bool(r.taint)
        h = r.pc + facts
        if r.kind == 'raise':
            u.prove('path %d: raises only on unbalanced brackets' % i, h, z3.Or(SPERR(x), SPERR(y)), imprecise=imp, info='%r' % (r.value,))
            continue
        if not (isinstance(r.value, tuple) and len(r.value) == 2):
            u.prove('path %d: returns (verdict, splitted)' % i, r.pc, False, imprecise=imp)
            continue
        v, sp = truthy(I, r.value[0]), truthy(I, r.value[1])
        both_s = z3.And(KIND(x) == 0, KIND(y) == 0)
        if part == 'P05':
            u.prove('path %d: different kinds are never equal' % i, h + [KIND(x) != KIND(y)], z3.And(z3.Not(v), sp), imprecise=imp)
            ordk = z3.Or(KIND(x) == 1, KIND(x) == 2)
            u.prove('path %d: ordered collections are equal <=> same length and equal at every position' % i, h + [KIND(x) == KIND(y), ordk],
                    v == pw, imprecise=imp)
            u.prove('path %d: a collection is reported as split' % i, h + [KIND(x) == KIND(y), ordk], sp, imprecise=imp)
            u.prove('path %d: no collection on either side => equal only as the remaining text' % i, h + [both_s, v],
                    z3.And(EQ(REST(x), REST(y)), sp), imprecise=imp)
        if part == 'P06':
            sets = [KIND(x) == 3, KIND(y) == 3]
            u.prove('path %d: sets of different size are never equal' % i, h + sets + [CNT(x) != CNT(y)], z3.Not(v), imprecise=imp)
            u.prove('path %d: a set is reported as split' % i, h + sets, sp, imprecise=imp)
            s = z3.Solver()
            s.set('timeout', 3000)
            s.add(*(h + sets + [CNT(x) == CNT(y)]))
            if s.check() != z3.unsat:
                seen_set += 1
                prove_matching(u, I, r, h + sets + [CNT(x) == CNT(y)], v, CNT(x), CNT(y), lambda p, q: EQ(ELEM(x, p), ELEM(y, q)), imp, 'path %d' % i)
    if part == 'P06':
        u.prove('the set case is reached', [], seen_set > 0, imprecise=True)


# ---------------------------------------------------------------- perfect matching
def unit_matching(u, part):
    """has_perfect_matching(matches, i, used) <=> PM(i, used), and PM is the existence of an injective assignment."""
    w = CmpWorld()
    I = u.interp(w)
    n, m, i0 = z3.Ints('n m i0')
    M = UF('M', INT, INT, BOOL)
    AR = z3.ArraySort(INT, BOOL)
    PM = UF('PM', INT, AR, BOOL)
    used = z3.Const('used', AR)
    x = z3.Int('x')
    QN = LP + 'has_perfect_matching'
    arrs = []

    def rec(I, e):
        vs = list(e.values())
        ok = isinstance(vs[0], ListV) and vs[0].id == mats.id
        I.oblige('recursive call is on the same table', ok)
        I.oblige('recursive call goes on to the next element', z3.And(rv(vs[1]) > i0, rv(vs[1]) <= n))
        s = I.as_seq(vs[2])
        I.oblige('recursive call keeps the number of partners', rv(s.n) == m)
        return PM(rv(vs[1]), z3.Lambda([x], truthy(I, s.get(x))))
    w.contracts[QN] = C(rec)
    mats = I.new_list(SeqV('list', n, lambda p: SeqV('list', m, lambda q: M(rv(p), rv(q)))))
    us = I.new_list(SeqV('list', m, lambda q: z3.Select(used, rv(q))))

    def prep():
        I.assume(z3.And(n >= 0, m >= 0, i0 >= 0, i0 <= n))
    j = z3.Int('jm')
    deff = z3.Or(i0 >= n, z3.Exists([j], z3.And(j >= 0, j < m, z3.Not(used[j]), M(i0, j), PM(i0 + 1, z3.Store(used, j, True)))))
    for k, r in enumerate(u.explore(I, QN, [mats, i0, us], prepare=prep)):
        u.prove('path %d: does not raise' % k, r.pc, r.kind != 'raise', info='%r' % (r.value,))
        if r.kind != 'raise':
            u.prove('path %d: result <=> nothing left, or an unused equal partner leaves the rest matchable' % k, r.pc, truthy(I, r.value) == deff,
                    imprecise=bool(r.taint))
    u.discharge_side(I)
    # lemma by induction on n - i: PM(i, used) <=> there is f, injective on [i, n), into unused partners j < m with M(k, f(k))
    f, g = z3.Const('f', z3.ArraySort(INT, INT)), z3.Const('g', z3.ArraySort(INT, INT))
    k1, k2 = z3.Ints('k1 k2')

    def inj(i, us, f):
        return z3.And(z3.ForAll([k1], z3.Implies(z3.And(k1 >= i, k1 < n), z3.And(f[k1] >= 0, f[k1] < m, z3.Not(us[f[k1]]), M(k1, f[k1])))),
                      z3.ForAll([k1, k2], z3.Implies(z3.And(k1 >= i, k1 < n, k2 >= i, k2 < n, k1 != k2), f[k1] != f[k2])))
    rng = [i0 >= 0, i0 <= n, m >= 0]
    d = z3.Function('choice', INT)
    # =>: from the definition pick j; the induction hypothesis gives g for i+1 with j used; f = g[i := j]
    jj = z3.Int('jj')
    u.prove('lemma =>: base', rng + [i0 >= n], inj(i0, used, f))
    u.prove('lemma =>: step', rng + [i0 < n, jj >= 0, jj < m, z3.Not(used[jj]), M(i0, jj), inj(i0 + 1, z3.Store(used, jj, True), g)],
            inj(i0, used, z3.Store(g, i0, jj)))
    # <=: j = f(i) and f itself serves for i+1
    u.prove('lemma <=: step', rng + [i0 < n, inj(i0, used, f)],
            z3.And(f[i0] >= 0, f[i0] < m, z3.Not(used[f[i0]]), M(i0, f[i0]), inj(i0 + 1, z3.Store(used, f[i0], True), f)))
    u.cover('a matching exists', [n == 2, m == 2, M(0, 1), M(1, 0)])


# ---------------------------------------------------------------- matrices as text
MK = UF('mat_is_list', U, BOOL)
MROWS = UF('mat_rows', U, INT)
MRL = UF('mat_row_is_list', U, INT, BOOL)
MROW = UF('mat_row', U, INT, U)
MCOLS = UF('mat_cols', U, INT, INT)
MCELL = UF('mat_cell', U, INT, INT, U)
MREST = UF('mat_rest', U, U)
MERR = UF('mat_raises', U, BOOL)


def c_split_matrix(I, e):
    t = I.to_u(list(e.values())[0])
    if I.choose(MERR(t)):
        raise PyExc(ExcV(AssertionError, (), 'split_matrix'))
    if not I.choose(MK(t)):
        return Ob(MREST(t), 'str')
    n = MROWS(t)
    I.assume(n >= 1)

    def row(i):
        return RowV(t, rv(i))
    return I.new_list(SeqV('list', n, row, UF('mat_value', U, U)(t)))


class RowV:
    """A row: a string or a list of strings, decided where the program asks."""
    is_dyn = True

    def __init__(self, t, i):
        self.t, self.i = t, i

    def sym_subst(self, S):
        return RowV(S.f(self.t), S.f(self.i))

    def __repr__(self):
        return 'row<%s,%s>' % (self.t, self.i)


class MatWorld(EqWorld):
    def isinstance(self, v, t):
        if isinstance(v, RowV) and isinstance(t, BuiltinV):
            if t.name == 'list':
                return MRL(v.t, v.i)
            if t.name == 'str':
                return z3.Not(MRL(v.t, v.i))
            return t.name == 'object'
        return None

    def seq(self, v):
        return SeqV('list', MCOLS(v.t, v.i), lambda k: Ob(MCELL(v.t, v.i, rv(k)), 'str'))

    def length(self, v):
        if isinstance(v, RowV):
            I = self.I
            if I.choose(MRL(v.t, v.i)):
                I.assume(MCOLS(v.t, v.i) >= 1)
                return MCOLS(v.t, v.i)
            n = UF('s_len', U, INT)(MROW(v.t, v.i))
            I.assume(n >= 0)
            return n
        return None

    def iterate(self, v):
        if isinstance(v, RowV):
            if self.I.choose(MRL(v.t, v.i)):
                self.I.assume(MCOLS(v.t, v.i) >= 1)
                return self.seq(v)
            raise Unsupported('iteration over the characters of a row')
        return None

    def eqv(self, I, e):
        a, b = two(e)
        xs = []
        for v in (a, b):
            if isinstance(v, RowV):
                if I.choose(MRL(v.t, v.i)):
                    I.may_raise('is_equiv of a list')
                    return I.fresh(BOOL, 'eq')
                xs.append(MROW(v.t, v.i))
            elif isstr(I, v):
                xs.append(I.to_u(v))
            else:
                I.may_raise('is_equiv of a non-string')
                return I.fresh(BOOL, 'eq')
        return EQ(*xs)

    def subscript(self, o, k):
        if isinstance(o, RowV):
            I = self.I
            if I.choose(MRL(o.t, o.i)):
                return I.subscript(self.seq(o), k)
            raise Unsupported('character of a row')
        return EqWorld.subscript(self, o, k)


def unit_matrix(u, part):
    w = MatWorld()
    I = u.interp(w)
    w.contracts[EV + 'is_equiv'] = C(w.eqv)
    w.contracts[NO + 'split_matrix'] = C(c_split_matrix)
    a, b = const_str('gt'), const_str('gv')
    x, y = a.t, b.t
    i, k = z3.Ints('i k')
    rowrng = lambda t: z3.And(i >= 0, i < MROWS(t))
    facts = []
    for t in (x, y):
        facts += [z3.Implies(MK(t), MROWS(t) >= 1), z3.ForAll([i], MCOLS(t, i) >= 1)]
    roweq = z3.Or(z3.And(z3.Not(MRL(x, i)), z3.Not(MRL(y, i)), EQ(MROW(x, i), MROW(y, i))),
                  z3.And(MRL(x, i), MRL(y, i), MCOLS(x, i) == MCOLS(y, i),
                         z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < MCOLS(x, i)), EQ(MCELL(x, i, k), MCELL(y, i, k))))))
    spec = z3.And(MROWS(x) == MROWS(y), z3.ForAll([i], z3.Implies(rowrng(x), roweq)))
    both = z3.And(MK(x), MK(y))
    u.cover('equal matrices', facts + [both, spec, MROWS(x) == 2, MRL(x, 0), MRL(x, 1)])
    for p, r in enumerate(u.explore(I, EV + 'is_equiv_possible_matrix', [a, b, z3.Bool('verbose')])):
        imp = bool(r.taint)
        h = r.pc + facts
        if r.kind == 'raise':
            u.prove('path %d: raises only when splitting raises' % p, h, z3.Or(MERR(x), MERR(y)), imprecise=imp, info='%r' % (r.value,))
            continue
        if not (isinstance(r.value, tuple) and len(r.value) == 2):
            u.prove('path %d: returns (verdict, splitted)' % p, r.pc, False, imprecise=imp)
            continue
        v, sp = truthy(I, r.value[0]), truthy(I, r.value[1])
        u.prove('path %d: matrices are equal <=> same shape and equal entries' % p, h + [both], z3.And(v == spec, sp), imprecise=imp)
        u.prove('path %d: a matrix and a non-matrix are not equal' % p, h + [MK(x) != MK(y)], z3.Not(v), imprecise=imp)
        u.prove('path %d: neither is a matrix => equal only as the remaining text' % p, h + [z3.Not(MK(x)), z3.Not(MK(y)), v],
                EQ(MREST(x), MREST(y)), imprecise=imp)
