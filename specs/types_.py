"""Contracts of math_evaluation/core/type_evaluations.py and of is_equiv_MATH in demo.py."""
from .common import *
from .evaluations import (EqWorld, c_string_normalize, c_is_equiv, c_leq, c_stage, STG, EQ, LEQ, LERR, two)

SPEC = {n: UF('check_' + n, U, U, BOOL) for n in ('complex', 'set', 'vector', 'function')}
NAMES = {'complex': 'Complex', 'set': 'Set', 'vector': 'Vector', 'function': 'Function'}


def unit_is_equiv_type(u, part):
    w = EqWorld()
    I = u.interp(w)
    w.contracts[EV + 'is_equiv'] = C(c_is_equiv)
    none = z3.Const('None', U)

    def chk(n):
        def f(I, e):
            a, b = two(e)
            return SPEC[n](I.to_u(a), I.to_u(b))
        return C(f)
    for n in SPEC:
        w.contracts[TY + 'is_equiv_' + n] = chk(n)
    s = const_str('answer_type')
    cases = []
    for a in (None, const_str('gt')):
        for b in (None, const_str('gv')):
            for t in (None, '', s):
                cases.append((a, b, t))
    for a, b, t in cases:
        x, y = I.to_u(a), I.to_u(b)
        gen = EQ(x, y) if a is not None and b is not None else z3.BoolVal(a is None and b is None)
        if t:
            spec = z3.Or(gen, *[z3.And(zb(I.contains(NAMES[n], s)), SPEC[n](x, y)) for n in SPEC])
        else:
            spec = gen
        tag = '%s/%s/%s' % ('None' if a is None else 'str', 'None' if b is None else 'str', 'type' if t else 'no type')
        # an empty type names nothing
        facts = [z3.Implies(s.t == I.lit(''), z3.Not(zb(I.contains(NAMES[n], s)))) for n in SPEC] if t else []

        def prep():
            for f in facts:
                I.assume(f)
        for i, r in enumerate(u.explore(I, TY + 'is_equiv_type', [a, b, t, z3.Bool('verbose')], prepare=prep)):
            imp = bool(r.taint)
            u.prove('%s: path %d does not raise' % (tag, i), r.pc, r.kind != 'raise', imprecise=imp, info='%r' % (r.value,))
            if r.kind == 'raise':
                continue
            v = truthy(I, r.value)
            if part == 'P01':
                u.prove('%s: path %d the verdict is a bool' % (tag, i), r.pc, E.is_bool(r.value), imprecise=imp)
            if part == 'P02':
                u.prove('%s: path %d accepted by the general comparison => accepted' % (tag, i), r.pc + [gen], v, imprecise=imp)
                if (a is None) != (b is None):
                    u.prove('%s: path %d a missing answer equals no present one' % (tag, i), r.pc +
                            [z3.Not(SPEC[n](x, y)) for n in SPEC], z3.Not(v), imprecise=imp)
            if part == 'P16':
                u.prove('%s: path %d accepted <=> the general comparison or a named specialised one accepts' % (tag, i), r.pc, v == spec, imprecise=imp)
    if part == 'P16':
        # positional and keyword default
        r = u.explore(I, TY + 'is_equiv_type', [const_str('gt'), const_str('gv')])
        for i, p in enumerate(r):
            u.prove('type left out: path %d' % i, p.pc, p.kind != 'raise' and truthy(I, p.value) == EQ(z3.Const('gt', U), z3.Const('gv', U)), imprecise=bool(p.taint))


def unit_special_total(u, part):
    """The four specialised comparisons: a bool for all strings and None, no exception; a missing answer equals no present one."""
    w = EqWorld()
    I = u.interp(w)
    w.contracts[EV + 'is_equiv'] = C(c_is_equiv)
    w.contracts[NO + 'string_normalize'] = C(c_string_normalize)
    w.contracts[EV + 'is_latex_equiv'] = C(c_leq)
    w.contracts[EV + 'is_equiv_possible_tuple'] = c_stage('TUP')

    def l2s(I, e):
        if I.choose(I.fresh(BOOL, 'l2s_raises')):
            raise PyExc(ExcV(None, (), 'latex2sympy'))
        return Ob(UF('l2s', U, U)(I.to_u(list(e.values())[0])))
    w.contracts[NO + 'latex2sympy'] = C(l2s)

    def s2c(I, e):
        v = list(e.values())[0]
        if v is None:
            I.raise_(TypeError, '_str_to_complex')
        return I.opaque_str('str_to_complex', v)
    w.contracts[NO + '_str_to_complex'] = C(s2c)
    for n in SPEC:
        for a in (None, const_str('gt')):
            for b in (None, const_str('gv')):
                tag = '%s(%s, %s)' % (n, 'None' if a is None else 'str', 'None' if b is None else 'str')
                for i, r in enumerate(u.explore(I, TY + 'is_equiv_' + n, [a, b, z3.Bool('verbose')])):
                    imp = bool(r.taint)
                    if part in ('P01', 'P16'):
                        u.prove('%s: path %d does not raise' % (tag, i), r.pc, r.kind != 'raise', imprecise=imp, info='%r' % (r.value,))
                    if r.kind == 'raise':
                        continue
                    if part in ('P01', 'P16'):
                        u.prove('%s: path %d the verdict is a bool' % (tag, i), r.pc, E.is_bool(r.value), imprecise=imp, info='%r' % (r.value,))
                    if part == 'P02' and (a is None) != (b is None):
                        u.prove('%s: path %d a missing answer equals no present one' % (tag, i), r.pc, z3.Not(truthy(I, r.value)), imprecise=imp)


def unit_complex_anyof(u, part):
    w = EqWorld()
    I = u.interp(w)
    w.contracts[NO + 'string_normalize'] = C(c_string_normalize)
    w.contracts[EV + 'is_latex_equiv'] = C(c_leq)
    w.contracts[NO + '_str_to_complex'] = C(lambda I, e: I.opaque_str('str_to_complex', list(e.values())[0]))
    from .evaluations import NSET, NCNT, NITEM, NORM, norm_facts
    a, b = const_str('gt'), const_str('gv')
    ca, cb = I.opaque_str('str_to_complex', a).t, I.opaque_str('str_to_complex', b).t
    rep = lambda t: I.opaque_str('replace', Ob(t, 'str'), "\\sqrt{-1}", 'I').t
    k, l = z3.Ints('k l')
    na, nb = z3.If(NSET(ca), NCNT(ca), 1), z3.If(NSET(cb), NCNT(cb), 1)
    ia = lambda i: z3.If(NSET(ca), rep(NITEM(ca, i)), rep(NORM(ca)))
    ib = lambda i: z3.If(NSET(cb), rep(NITEM(cb, i)), rep(NORM(cb)))
    rng = lambda: z3.And(k >= 0, k < na, l >= 0, l < nb)
    good = z3.Exists([k, l], z3.And(rng(), LEQ(ia(k), ib(l)), z3.Not(LERR(ia(k), ib(l)))))
    noerr = z3.ForAll([k, l], z3.Implies(rng(), z3.Not(LERR(ia(k), ib(l)))))
    facts = norm_facts(ca, cb)
    for i, r in enumerate(u.explore(I, TY + 'is_equiv_complex', [a, b, z3.Bool('verbose')])):
        imp = bool(r.taint)
        if r.kind == 'raise':
            u.prove('path %d does not raise' % i, r.pc, False, imprecise=imp)
            continue
        v = truthy(I, r.value)
        u.prove('path %d: accepted => some pair of readings equal' % i, r.pc + facts + [v], good, imprecise=imp)
        u.prove('path %d: some pair of readings equal => accepted' % i, r.pc + facts + [good, noerr], v, imprecise=imp)


def unit_math_list(u, part):
    """demo.is_equiv_MATH: a prediction is correct <=> it equals at least one annotated answer."""
    w = EqWorld()
    I = u.interp(w)
    w.contracts[EV + 'is_equiv'] = C(c_is_equiv)
    Q = 'demo:is_equiv_MATH'
    n = z3.Int('n')
    el = UF('annotated', INT, U)
    p = const_str('prediction')
    j = z3.Int('jj')
    lst = I.new_list(SeqV('list', n, lambda i: Ob(el(rv(i)), 'str')))

    def prep():
        I.assume(n >= 0)
    spec = z3.Exists([j], z3.And(j >= 0, j < n, EQ(el(j), p.t)))
    u.cover('the last answer is the correct one', [n == 3, EQ(el(2), p.t), z3.Not(EQ(el(0), p.t))])
    for i, r in enumerate(u.explore(I, Q, [lst, p, z3.Bool('verbose')], prepare=prep)):
        imp = bool(r.taint)
        u.prove('path %d does not raise' % i, r.pc, r.kind != 'raise', imprecise=imp)
        if r.kind != 'raise':
            u.prove('path %d: correct <=> equals some annotated answer' % i, r.pc, truthy(I, r.value) == spec, imprecise=imp)
    a = const_str('gt')
    for i, r in enumerate(u.explore(I, Q, [a, p, z3.Bool('verbose')])):
        u.prove('single answer: path %d' % i, r.pc, r.kind != 'raise' and truthy(I, r.value) == EQ(a.t, p.t), imprecise=bool(r.taint))


def unit_normalize_total(u, part):
    """string_normalize never raises, whatever fails inside, and gives back the answer itself then."""
    w = EqWorld()
    I = u.interp(w)

    def inner(I, e):
        v = list(e.values())[0]
        if I.choose(I.fresh(BOOL, 'raises')):
            I.log('fault', '')
            raise PyExc(ExcV(None, (), ''))
        return Ob(I.uf('normalised', U, U)(I.to_u(v)))
    w.contracts[NO + '_string_normalize'] = C(inner)
    for v in (None, const_str('expr')):
        for i, r in enumerate(u.explore(I, NO + 'string_normalize', [v])):
            u.prove('path %d does not raise' % i, r.pc, r.kind != 'raise', imprecise=bool(r.taint))
            if r.kind != 'raise':
                t = I.to_u(r.value)
                failed = any(x[0] == 'fault' for x in r.log)
                u.prove('path %d: the result is the normal form, or the answer itself after a failure' % i, r.pc,
                        t == (I.to_u(v) if failed else I.uf('normalised', U, U)(I.to_u(v))), imprecise=bool(r.taint))
