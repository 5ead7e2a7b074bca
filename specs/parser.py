"""Contracts of math_evaluation/core/latex_parser.py: comparison of parsed values."""
from .common import *
from .evaluations import prove_matching, TupWorld, two

AE = UF('AE', U, U, U, U, BOOL)            # _are_equal_latex_sympy accepts
TYF = UF('type_of_value', U, U)
CAND = UF('candidate', U, INT, U)
CNONE = UF('candidate_none', U, INT, BOOL)
AWS = UF('AWS', U, U, BOOL)


def fault(I, why):
    """A step of the symbolic machinery fails: the path is marked."""
    c = I.fresh(BOOL, 'fault')
    if I.choose(c):
        I.log('fault', why)
        return True
    return False


def faulty(r):
    return any(x[0] == 'fault' for x in r.log) or r.kind == 'raise' and r.value.why.startswith('callee: ')


class NumV:
    """A closed real sympy number: its value and the sympy type flags."""
    def __init__(self, v, is_int, is_rat):
        self.v, self.is_int, self.is_rat = v, is_int, is_rat

    def sym_eq(self, I, o):
        if isinstance(o, NumV):
            return self.v == o.v
        if E.is_num(o):
            return self.v == rv(o)
        return False

    def sym_truth(self, I):
        return self.v != 0

    def sym_method(self, I, name, args, kw):
        if name in ('evalf', 'n'):
            return NumV(self.v, self.v == 0, self.v == 0)
        if name in ('subs', 'simplify', 'expand', 'doit', 'xreplace', 'nsimplify'):
            return self
        return None

    def sym_subst(self, S):
        return NumV(S.f(self.v), S.f(zb(self.is_int)), S.f(zb(self.is_rat)))

    def __repr__(self):
        return 'NumV<%s>' % self.v


def real_of(v):
    if isinstance(v, NumV):
        return v.v
    if E.is_num(v) and not E.is_bool(v):
        r = rv(v)
        return z3.ToReal(r) if r.is_int() else r
    return None


class ValWorld(TupWorld):
    """Sympy values as terms, sympy operations as uninterpreted functions of them; closed numbers as reals."""
    BOOLS = ('is_Rational', 'is_number', 'is_Integer', 'is_zero', 'is_symbol', 'is_Function', 'is_real', 'is_Float', 'is_Number', 'is_finite', 'is_zero_matrix')

    def getattr(self, o, name):
        I = self.I
        if isinstance(o, NumV):
            if name in ('is_number', 'is_real', 'is_finite', 'is_Number'):
                return True
            if name == 'is_Integer':
                return o.is_int
            if name == 'is_Rational':
                return o.is_rat
            if name == 'is_zero':
                return o.v == 0
            if name == 'is_positive':
                return o.v > 0
            if name == 'is_negative':
                return o.v < 0
            if name == 'free_symbols':
                return SetV([])
            if name in ('is_symbol', 'is_Function', 'is_Matrix'):
                return False
            if name in ('evalf', 'subs', 'n', 'simplify', 'expand', 'doit'):
                return MethV(o, name)
            raise Unsupported('attribute %s of a number' % name)
        if isinstance(o, Ob) and o.ty in (None, 'val'):
            if name in self.BOOLS:
                return UF(name, U, BOOL)(o.t)
            if name in ('lhs', 'rhs'):
                return Ob(UF(name, U, U)(o.t), 'val')
            if name in ('rel_op', 'name'):
                return Ob(UF(name, U, U)(o.t), 'str')
            if name in ('rows', 'cols'):
                n = UF(name, U, INT)(o.t)
                I.assume(n >= 0)
                return n
            if name == 'shape':
                a, b = UF('rows', U, INT)(o.t), UF('cols', U, INT)(o.t)
                I.assume(z3.And(a >= 0, b >= 0))
                return (a, b)
            if name == 'free_symbols':
                n = UF('n_free', U, INT)(o.t)
                I.assume(n >= 0)
                return SeqV('set', n, lambda i: Ob(UF('free_sym', U, INT, U)(o.t, rv(i)), 'val'), UF('free_symbols', U, U)(o.t))
            if name in ('T',):
                return Ob(UF('transpose', U, U)(o.t), 'val')
            if name == '_prec':
                return UF('precision_bits', U, INT)(o.t)
        return None

    def eq(self, a, b):
        # sets of free symbols: equal or not, as objects
        if isinstance(a, SeqV) and isinstance(b, SeqV) and a.kind == b.kind == 'set' and a.u is not None and b.u is not None:
            return a.u == b.u
        return None

    def compare(self, op, a, b):
        x, y = real_of(a), real_of(b)
        if (isinstance(a, NumV) or isinstance(b, NumV)) and x is not None and y is not None and op in ('Lt', 'LtE', 'Gt', 'GtE'):
            return {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op]
        return TupWorld.compare(self, op, a, b)

    def binop(self, op, a, b):
        I = self.I
        x, y = real_of(a), real_of(b)
        if (isinstance(a, NumV) or isinstance(b, NumV)) and x is not None and y is not None:
            ii = band(getattr(a, 'is_int', E.is_int(a)), getattr(b, 'is_int', E.is_int(b)))
            rr = band(getattr(a, 'is_rat', E.is_int(a)), getattr(b, 'is_rat', E.is_int(b)))
            if op == 'Add':
                return NumV(x + y, ii, rr)
            if op == 'Sub':
                return NumV(x - y, ii, rr)
            if op == 'Mult':
                return NumV(x * y, ii, rr)
            if op == 'Div':
                v = I.fresh(REAL, 'quot')
                if I.choose(y == 0):
                    return Ob(I.fresh(U, 'zoo'), 'zoo')
                I.assume(v * y == x)
                return NumV(v, I.fresh(BOOL, 'isint'), rr)
        if a is None or b is None:
            I.raise_(TypeError, 'operator %s on None' % op)
        if any(isinstance(v, Ob) and v.ty in (None, 'val') for v in (a, b)) and op in ('Sub', 'Add', 'Mult', 'Div', 'Pow'):
            self.op_fault('operator %s' % op)
            return Ob(UF('v' + op, U, U, U)(I.to_u(a), I.to_u(b)), 'val')
        return TupWorld.binop(self, op, a, b)

    def op_fault(self, why):
        if fault(self.I, why):
            raise PyExc(ExcV(None, (), 'callee: ' + why))

    def unop(self, op, v):
        op = {'-': 'USub', '+': 'UAdd', '~': 'Invert'}.get(op, op)
        if op == 'UAdd' and (isinstance(v, NumV) or isinstance(v, Ob) and v.ty in (None, 'val')):
            return v
        if isinstance(v, NumV):
            if op == 'USub':
                return NumV(-v.v, v.is_int, v.is_rat)
            if op == 'abs':
                return NumV(z3.If(v.v >= 0, v.v, -v.v), v.is_int, v.is_rat)
        if isinstance(v, Ob) and v.ty in (None, 'val'):
            return Ob(UF('v' + op, U, U)(v.t), 'val')
        return TupWorld.unop(self, op, v)

    def subscript(self, o, k):
        if isinstance(o, Ob) and o.ty == 'val' and isinstance(k, tuple) and len(k) == 2:
            return Ob(UF('cell', U, INT, INT, U)(o.t, rv(k[0]), rv(k[1])), 'val')
        return TupWorld.subscript(self, o, k)

    def isinstance(self, v, t):
        name = t.dotted.split('.')[-1] if isinstance(t, ExtV) else getattr(t, 'name', None)
        if isinstance(v, NumV):
            return name in ('Expr', 'Basic', 'object')
        if isinstance(v, Ob) and v.ty == 'val':
            if name in ('list', 'set', 'tuple', 'str', 'int', 'float', 'dict'):
                return False
            if name == 'Equality':
                return UF('is_Equality', U, BOOL)(v.t)
            return UF('isinstance:' + str(name), U, BOOL)(v.t)
        return None

    def ext(self, dotted, args, kw):
        I = self.I
        if dotted in ('sympy.re', 'sympy.im', 'sympy.functions.re', 'sympy.functions.im') and len(args) == 1:
            return Ob(UF(dotted.split('.')[-1], U, U)(I.to_u(args[0])), 'val')
        if dotted in ('sympy.Integer', 'sympy.S', 'sympy.sympify') and len(args) == 1 and E.is_int(args[0]):
            return NumV(z3.ToReal(rv(args[0])), True, True)
        if dotted in ('sympy.Abs', 'sympy.functions.Abs') and len(args) == 1:
            return self.unop('abs', args[0])
        return TupWorld.ext(self, dotted, args, kw)

    def ob_method(self, o, name, args, kw):
        I = self.I
        if o.ty in (None, 'val') and name in ('subs', 'transpose', 'expand', 'simplify', 'evalf', 'doit'):
            ts = [o] + list(args) + list(kw.values())
            self.op_fault('.' + name)
            return Ob(UF('v_%s%d' % (name, len(ts)), *([U] * (len(ts) + 1)))(*[I.to_u(x) for x in ts]), 'val')
        return TupWorld.ob_method(self, o, name, args, kw)

    def truth(self, v):
        if isinstance(v, Ob) and v.ty == 'zoo':
            return True
        return TupWorld.truth(self, v)


def ty_of(I, v):
    k = I.kind_of(v)
    if k == 'list':
        return TYPES['VEC']
    if k == 'set':
        return TYPES['SET']
    if isinstance(v, NumV):
        return TYPES['EXPR']
    return Ob(TYF(I.to_u(v)), 'str')


def c_get_type(I, e):
    return ty_of(I, list(e.values())[0])


def c_ae(I, e):
    a, b, ta, tb = list(e.values())[:4]
    if fault(I, 'recursive comparison raises'):
        raise PyExc(ExcV(None, (), 'callee: recursive comparison'))
    return AE(I.to_u(a), I.to_u(b), I.to_u(ta), I.to_u(tb))


def ae(I, a, b, ta=None, tb=None):
    return AE(I.to_u(a), I.to_u(b), I.to_u(ta if ta is not None else ty_of(I, a)), I.to_u(tb if tb is not None else ty_of(I, b)))


QA = LP + '_are_equal_latex_sympy'


def mk(I, kind, name):
    t = z3.Const(name, U)
    if kind in ('VEC', 'SET'):
        n = UF('o_len', U, INT)(t)
        s = SeqV('list' if kind == 'VEC' else 'set', n, lambda i: Ob(UF('elem', U, INT, U)(t, rv(i)), 'val'), t)
        return t, (I.new_list(s) if kind == 'VEC' else s)
    return t, Ob(t, 'val')


def kind_facts(I, kind, t):
    fs = [UF('o_len', U, INT)(t) >= 0]
    fs.append(TYF(t) == I.lit(TYPES[kind]))
    iseq = UF('is_Equality', U, BOOL)(t)
    fs.append(iseq if kind in ('FUNC', 'EQUL') else z3.Not(iseq))
    return fs


def setup_ae(u):
    w = ValWorld()
    I = u.interp(w)
    w.contracts[LP + '_get_sympy_type'] = C(c_get_type)
    w.contracts[QA] = C(c_ae)
    w.contracts[LP + 'has_perfect_matching'] = C(w.match_contract)

    def l2m(I, e):
        lst, r, c = list(e.values())[:3]
        t = [I.to_u(lst), rv(r), rv(c)]
        if I.choose(UF('l2m_raises', U, INT, INT, BOOL)(*t)):
            raise PyExc(ExcV(None, (), 'callee: _list_to_mat'))
        return Ob(UF('l2m', U, INT, INT, U)(*t), 'val')
    w.contracts[LP + '_list_to_mat'] = C(l2m)

    def only_i(I, e):
        v = list(e.values())[0]
        t = I.to_u(v)
        c = UF('only_i', U, BOOL)(t)
        if I.choose(c):
            return (Ob(UF('i_subst', U, U)(t), 'val'), True)
        return (v, False)
    w.contracts[LP + 'expr_with_only_i'] = C(only_i)
    return w, I


def run_ae(u, I, ka, kb, extra=()):
    x, va = mk(I, ka, 'x')
    y, vb = mk(I, kb, 'y')
    facts = kind_facts(I, ka, x) + kind_facts(I, kb, y) + list(extra(x, y) if callable(extra) else extra)

    def prep():
        for f in facts:
            I.assume(f)
    rs = u.explore(I, QA, [va, vb, TYPES[ka], TYPES[kb]], prepare=prep)
    return x, y, va, vb, rs


def exact(u, I, rs, spec, what, sound_only=False):
    """Every path: the verdict is `spec`; a path that raises for a reason of its own (not a failing callee) may only do so
    where the spec says no."""
    for i, r in enumerate(rs):
        imp = bool(r.taint)
        if r.kind == 'raise':
            if faulty(r):
                continue
            u.prove('%s: path %d raises only where the answers differ' % (what, i), r.pc, z3.Not(spec), imprecise=imp, info='%r' % (r.value,))
            continue
        v = truthy(I, r.value)
        u.prove('%s: path %d accepted => as specified' % (what, i), r.pc + [v], spec, imprecise=imp)
        if not sound_only and not faulty(r):
            u.prove('%s: path %d as specified => accepted' % (what, i), r.pc + [spec], v, imprecise=imp)


def unit_ae_vec(u, part):
    w, I = setup_ae(u)
    el = lambda t, i: Ob(UF('elem', U, INT, U)(t, i), 'val')
    n = UF('o_len', U, INT)
    j = z3.Int('jj')
    x, y, va, vb, rs = run_ae(u, I, 'VEC', 'VEC')
    spec = z3.And(n(x) == n(y), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n(x)), ae(I, el(x, j), el(y, j)))))
    u.cover('equal lists', [n(x) == 2, n(y) == 2, spec])
    exact(u, I, rs, spec, 'list/list')
    for ka, kb in (('VEC', 'SET'), ('SET', 'VEC')):
        x, y, va, vb, rs = run_ae(u, I, ka, kb)
        exact(u, I, rs, z3.BoolVal(False), '%s/%s' % (ka, kb))


def unit_ae_set(u, part):
    w, I = setup_ae(u)
    el = lambda t, i: Ob(UF('elem', U, INT, U)(t, i), 'val')
    n = UF('o_len', U, INT)
    x, y, va, vb, rs = run_ae(u, I, 'SET', 'SET')
    seen = 0
    for i, r in enumerate(rs):
        imp = bool(r.taint)
        if r.kind == 'raise':
            u.prove('path %d raises only when a callee does' % i, r.pc, faulty(r) or r.value.cls is None, imprecise=imp)
            continue
        v = truthy(I, r.value)
        u.prove('path %d: sets of different size are never equal' % i, r.pc + [n(x) != n(y)], z3.Not(v), imprecise=imp)
        s = z3.Solver()
        s.add(*(r.pc + [n(x) == n(y)]))
        if s.check() != z3.unsat:
            seen += 1
            prove_matching(u, I, r, r.pc + [n(x) == n(y)], v, n(x), n(y), lambda p, q: ae(I, el(x, p), el(y, q)), imp, 'path %d' % i)
    u.prove('the matching is reached', [], seen > 0, imprecise=True)


def unit_ae_relations(u, part):
    w, I = setup_ae(u)
    lhs, rhs, sub, neg, rel = UF('lhs', U, U), UF('rhs', U, U), UF('vSub', U, U, U), UF('vUSub', U, U), UF('rel_op', U, U)
    V = lambda t: Ob(t, 'val')
    # equations
    ns = [z3.Const('x', U), z3.Const('y', U)]
    dx, dy = sub(lhs(ns[0]), rhs(ns[0])), sub(lhs(ns[1]), rhs(ns[1]))
    # the type of -e is the type of e
    x, y, va, vb, rs = run_ae(u, I, 'EQUL', 'EQUL', lambda x, y: [TYF(neg(dx)) == TYF(dx), TYF(neg(dy)) == TYF(dy)])
    spec = z3.Or(ae(I, V(dx), V(dy)), ae(I, V(neg(dx)), V(dy)), )
    alt = z3.Or(ae(I, V(dx), V(neg(dy))))
    for i, r in enumerate(rs):
        imp = bool(r.taint)
        if r.kind == 'raise':
            u.prove('equations: path %d raises only when a callee does' % i, r.pc, faulty(r), imprecise=imp, info='%r' % (r.value,))
            continue
        v = truthy(I, r.value)
        u.prove('equations: path %d accepted => left minus right equal or opposite' % i, r.pc + [v], z3.Or(spec, alt), imprecise=imp)
        if not faulty(r):
            u.prove('equations: path %d left minus right equal => accepted' % i, r.pc + [ae(I, V(dx), V(dy))], v, imprecise=imp)
            u.prove('equations: path %d left minus right opposite => accepted' % i, r.pc + [ae(I, V(neg(dx)), V(dy)), ae(I, V(dx), V(neg(dy)))], v, imprecise=imp)
    # inequalities, one case per pair of relation signs
    ops = ['<', '<=', '>', '>=', '!=']
    for oa in ops:
        for ob in ops:
            x, y, va, vb, rs = run_ae(u, I, 'INEQ', 'INEQ', lambda x, y: [rel(x) == I.lit(oa), rel(y) == I.lit(ob)] +
                                      [I.lit(a) != I.lit(b) for k, a in enumerate(ops) for b in ops[k + 1:]])
            ne = lambda o, t: V(sub(lhs(t), rhs(t))) if o in ('<', '<=') else V(sub(rhs(t), lhs(t)))
            if oa == '!=' and ob == '!=':
                s1 = I.to_u(SetV([V(lhs(x)), V(rhs(x))]))
                s2 = I.to_u(SetV([V(lhs(y)), V(rhs(y))]))
                t = I.lit(TYPES['SET'])
                spec = AE(s1, s2, t, t)
            elif '!=' not in (oa, ob) and ('=' in oa) == ('=' in ob):
                spec = ae(I, ne(oa, x), ne(ob, y))
            else:
                spec = z3.BoolVal(False)
            exact(u, I, rs, spec, '%s against %s' % (oa, ob))


def unit_ae_matrix(u, part):
    w, I = setup_ae(u)
    rows, cols, cell = UF('rows', U, INT), UF('cols', U, INT), UF('cell', U, INT, INT, U)
    V = lambda t: Ob(t, 'val')
    i, j = z3.Ints('ii jj')
    if part == 'P07':
        x, y, va, vb, rs = run_ae(u, I, 'MAT', 'MAT')
        spec = z3.And(rows(x) == rows(y), cols(x) == cols(y),
                      z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < rows(x), j >= 0, j < cols(x)), ae(I, V(cell(x, i, j)), V(cell(y, i, j))))))
        u.cover('equal matrices', [rows(x) == 2, cols(x) == 2, spec])
        exact(u, I, rs, spec, 'matrix/matrix')
        return
    l2m, l2e = UF('l2m', U, INT, INT, U), UF('l2m_raises', U, INT, INT, BOOL)
    tm = I.lit(TYPES['MAT'])
    x, y, va, vb, rs = run_ae(u, I, 'MAT', 'VEC')
    k = (y, rows(x), cols(x))
    exact(u, I, rs, z3.And(z3.Not(l2e(*k)), AE(x, l2m(*k), tm, tm)), 'matrix/list')
    x, y, va, vb, rs = run_ae(u, I, 'VEC', 'MAT')
    k = (x, rows(y), cols(y))
    exact(u, I, rs, z3.And(z3.Not(l2e(*k)), AE(l2m(*k), y, tm, tm)), 'list/matrix')


def unit_ae_kinds(u, part):
    """Complex numbers, expressions in i only, function definitions."""
    w, I = setup_ae(u)
    re_, im_, rhs = UF('re', U, U), UF('im', U, U), UF('rhs', U, U)
    V = lambda t: Ob(t, 'val')
    x, y, va, vb, rs = run_ae(u, I, 'CPLX', 'CPLX')
    exact(u, I, rs, z3.And(ae(I, V(re_(x)), V(re_(y))), ae(I, V(im_(x)), V(im_(y)))), 'complex/complex')
    oi, sub = UF('only_i', U, BOOL), UF('i_subst', U, U)
    tc = I.lit(TYPES['CPLX'])
    x, y, va, vb, rs = run_ae(u, I, 'EXPR', 'EXPR', lambda x, y: [z3.Or(oi(x), oi(y))])
    exact(u, I, rs, AE(z3.If(oi(x), sub(x), x), z3.If(oi(y), sub(y), y), tc, tc), 'expressions in i only')
    for ka in ('FUNC', 'EXPR', 'CPLX', 'EQUL'):
        for kb in ('FUNC', 'EXPR', 'CPLX', 'EQUL'):
            if 'FUNC' not in (ka, kb):
                continue
            x, y, va, vb, rs = run_ae(u, I, ka, kb)
            f = lambda k, t: V(rhs(t)) if k in ('FUNC', 'EQUL') else V(t)
            exact(u, I, rs, ae(I, f(ka, x), f(kb, y)), '%s/%s by right-hand sides' % (ka, kb))


# ---------------------------------------------------------------- numbers
def tolerance(a, b):
    d = z3.If(a >= b, a - b, b - a)
    m = z3.If(a >= 0, a, -a)
    e, e5 = z3.RealVal('1/1000'), z3.RealVal('5/1000')
    return z3.If(m >= 1, d < e5, z3.If(m == 0, d < e, d < e * m))


def num_helpers(w, I):
    """Contracts of the guarded sympy steps on closed real numbers (floating-point rounding ignored)."""
    def evalf(I, e):
        v = list(e.values())[0]
        if isinstance(v, Ob) and v.ty == 'zoo':
            return v
        if not isinstance(v, NumV):
            raise Unsupported('sympy_evalf of %r' % (v,))
        if fault(I, 'evalf fails'):
            return None
        return NumV(v.v, v.v == 0, v.v == 0)

    def expand_eq(I, e):
        a, b = two(e)
        if not (isinstance(a, NumV) and isinstance(b, NumV)) or fault(I, 'expand fails'):
            return False
        return a.v == b.v

    def simp(I, e):
        v = list(e.values())[0]
        if fault(I, 'simplify fails'):
            I.raise_(RuntimeError, 'sympy_simplify')
        return NumV(v.v, v.v == 0, v.v == 0)

    def abs_(I, e):
        v = list(e.values())[0]
        if fault(I, 'abs fails'):
            I.raise_(RuntimeError, 'sympy_abs')
        return I.world.unop('abs', v)
    w.contracts[LP + 'sympy_evalf'] = C(evalf)
    w.contracts[LP + 'sympy_expand_equal'] = C(expand_eq)
    w.contracts[LP + 'sympy_simplify'] = C(simp)
    w.contracts[LP + 'sympy_abs'] = C(abs_)
    w.assumed.add('sympy evalf/expand/simplify/abs keep the value of a closed real number (rounding ignored); evalf is an Integer only for 0')


def unit_numbers(u, part):
    """_are_equal_latex_sympy on two closed real numbers is exactly the tolerance."""
    w, I = setup_ae(u)
    num_helpers(w, I)
    del w.contracts[QA]
    del w.contracts[LP + 'expr_with_only_i']
    a, b = z3.Reals('a b')
    ia, ib, ra, rb = z3.Bools('a_is_Integer b_is_Integer a_is_Rational b_is_Rational')

    def prep():
        for v, i, r in ((a, ia, ra), (b, ib, rb)):
            I.assume(z3.Implies(i, r))
            I.assume(z3.Implies(i, v == z3.ToReal(z3.ToInt(v))))
            I.assume(z3.Implies(v == 0, z3.Or(i, z3.Not(r))))
    x, y = NumV(a, ia, ra), NumV(b, ib, rb)
    spec = tolerance(a, b)
    u.cover('within tolerance but different', [a == 2, b == z3.RealVal('2004/1000'), spec])
    # an inexact zero has a tolerance of its own; a sympy closed number of value 0 is the Integer 0
    rs = u.explore(I, QA, [x, y, TYPES['EXPR'], TYPES['EXPR']], prepare=prep)
    exact(u, I, rs, spec, 'two real numbers')


def unit_diff_equal(u, part):
    """_diff_equal(g, d): d within the tolerance of a reference g; a reference with unknowns needs |d| < 0.001."""
    w, I = setup_ae(u)
    num_helpers(w, I)
    g, d = z3.Reals('g d')
    ig, idd, rg, rd = z3.Bools('g_is_Integer d_is_Integer g_is_Rational d_is_Rational')
    e = z3.RealVal('1/1000')
    m = lambda v: z3.If(v >= 0, v, -v)
    # the exact tolerance is an obligation of the caller (unit_numbers, which inlines this function); here: never more than it
    spec = z3.If(m(g) >= 1, m(d) < 5 * e, z3.If(m(g) > 0, m(d) < e * m(g), m(d) < e))

    def prep0():
        I.assume(z3.Implies(ig, g == z3.ToReal(z3.ToInt(g))))
    rs = u.explore(I, LP + '_diff_equal', [NumV(g, ig, rg), NumV(d, idd, rd)], prepare=prep0)
    exact(u, I, rs, spec, 'closed reference', True)
    if part == 'P03':
        G, D = Ob(z3.Const('G', U), 'val'), NumV(d, idd, rd)
        nf = UF('n_free', U, INT)

        def prep():
            I.assume(nf(G.t) >= 1)
        rs = u.explore(I, LP + '_diff_equal', [G, D], prepare=prep)
        exact(u, I, rs, m(d) < e, 'reference with unknowns, closed difference')
        # a difference that is not a number is accepted only when it is zero
        Dn = Ob(z3.Const('D', U), 'val')

        def c_abs(I, ee):
            raise PyExc(ExcV(RuntimeError, (), ''))
        w.contracts[LP + '_is_sympy_zero'] = C(lambda I, ee: UF('is_zero_value', U, BOOL)(I.to_u(list(ee.values())[0])))

        def prep2():
            I.assume(z3.Not(UF('is_number', U, BOOL)(Dn.t)))
        for GG in (G, NumV(g, ig, rg)):
            rs = u.explore(I, LP + '_diff_equal', [GG, Dn], prepare=prep2)
            exact(u, I, rs, UF('is_zero_value', U, BOOL)(Dn.t), 'difference with unknowns')


# ---------------------------------------------------------------- evidence (P03)
EXPEQ, SIMP, DEQ = UF('EXPEQ', U, U, BOOL), UF('SIMP', U, U), UF('DEQ', U, U, BOOL)
EVF, NUMEQ = UF('EVALF', U, U), UF('NUMEQ', U, U, BOOL)


def unit_ae_evidence(u, part):
    """Expressions with unknowns are accepted only by expansion, by a difference within tolerance, or by sampling."""
    w, I = setup_ae(u)
    sub = UF('vSub', U, U, U)

    def evalf(I, e):
        v = list(e.values())[0]
        if fault(I, 'evalf'):
            return None
        return Ob(EVF(I.to_u(v)), 'val')

    def expq(I, e):
        a, b = two(e)
        if a is None or b is None:
            return False
        return EXPEQ(I.to_u(a), I.to_u(b))

    def simp(I, e):
        if fault(I, 'simplify'):
            I.raise_(RuntimeError, '')
        return Ob(SIMP(I.to_u(list(e.values())[0])), 'val')

    def deq(I, e):
        a, b = two(e)
        if fault(I, '_diff_equal'):
            raise PyExc(ExcV(None, (), 'callee: '))
        return DEQ(I.to_u(a), I.to_u(b))

    def numeq(I, e):
        a, b = two(e)
        if fault(I, '_numerical_equal'):
            raise PyExc(ExcV(None, (), 'callee: '))
        r = I.fresh(BOOL, 'numeq')
        I.assume(z3.Implies(r, NUMEQ(I.to_u(a), I.to_u(b))))
        return r
    w.contracts[LP + 'sympy_evalf'] = C(evalf)
    w.contracts[LP + 'sympy_expand_equal'] = C(expq)
    w.contracts[LP + 'sympy_simplify'] = C(simp)
    w.contracts[LP + '_diff_equal'] = C(deq)
    w.contracts[LP + '_numerical_equal'] = C(numeq)
    for ka, kb in (('EXPR', 'EXPR'), ('EXPR', 'CPLX'), ('CPLX', 'EXPR'), ('OTHS', 'OTHS'), ('OTHS', 'EXPR'), ('INEQ', 'EXPR'), ('EQUL', 'EXPR'), ('MAT', 'EXPR'),
                   ('SET', 'EXPR'), ('EXPR', 'VEC')):
        oi = UF('only_i', U, BOOL)
        x, y, va, vb, rs = run_ae(u, I, ka, kb, lambda x, y: [z3.Not(oi(x)), z3.Not(oi(y))])
        none = z3.Const('None', U)
        pairs = [(p, q) for p in (x, EVF(x)) for q in (y, EVF(y))]
        ev = z3.Or(*([z3.Or(EXPEQ(p, q), DEQ(p, SIMP(sub(p, q))), NUMEQ(p, q)) for p, q in pairs] + [DEQ(p, sub(x, y)) for p in (x, EVF(x), none)]))
        for i, r in enumerate(rs):
            if r.kind == 'raise':
                continue
            v = truthy(I, r.value)
            u.prove('%s/%s: path %d accepted => evidence' % (ka, kb, i), r.pc + [v], ev, imprecise=bool(r.taint))
            if not faulty(r) and ka == kb == 'EXPR':
                u.prove('%s/%s: path %d equal by expansion => accepted' % (ka, kb, i), r.pc + [z3.And(*[EXPEQ(p, q) for p, q in pairs]),
                        DEQ(EVF(x), sub(x, y))], v, imprecise=bool(r.taint))


def unit_numerical_equal(u, part):
    try:
        numerical_equal(u, None)
    except Unsupported as e:
        if 'paths' not in str(e):
            raise
        # too many histories of adverse samples: those with at most two are still explored (what they refute is refuted)
        u.results.append(dict(name='histories with more than two adverse samples: %s' % e, func=u.name, result='undetermined', backend='none',
                              time=0.0, detail='path limit'))
        numerical_equal(u, 2)


def numerical_equal(u, adverse):
    w, I = setup_ae(u)
    if adverse is None:
        I.path_limit = 1500

    def may():
        # may the next step fail or disagree?
        if adverse is None:
            return True
        done = [c for c in I.ex.log if c[0] == 'evalf' and c[3] is None or c[0] == 'fault' or c[0] == 'deq' and c[3] is False]
        return len(done) < adverse

    fs = UF('free_symbols', U, U)

    def evalf(I, e):
        vs = list(e.values())
        x, s = vs[0], vs[1] if len(vs) > 1 else None
        if may() and I.choose(I.fresh(BOOL, 'evalf_fails')):
            I.log('evalf', I.to_u(x), s, None)
            return None
        r = Ob(I.fresh(U, 'sample'), 'val')
        I.log('evalf', I.to_u(x), s, r)
        return r

    def deq(I, e):
        a, b = two(e)
        if may() and I.choose(I.fresh(BOOL, 'deq_fails')):
            I.log('fault', '_diff_equal')
            raise PyExc(ExcV(None, (), 'callee: '))
        r = I.choose(I.fresh(BOOL, 'deq')) if may() else True
        I.log('deq', I.to_u(a), I.to_u(b), r)
        return r
    w.contracts[LP + 'sympy_evalf'] = C(evalf)
    w.contracts[LP + '_diff_equal'] = C(deq)
    x, y = Ob(z3.Const('x', U), 'val'), Ob(z3.Const('y', U), 'val')
    rng = HookV(lambda I, a, k: (I.log('rng', tuple(a)), Ob(I.fresh(U, 'rnd'), 'val'))[1], 'rng')
    w.dict_comp = lambda e: Ob(I.fresh(U, 'point'), 'dict')
    rs = u.explore(I, LP + '_numerical_equal', [x, y, rng])
    sub = UF('vSub', U, U, U)
    n_acc = 0
    for i, r in enumerate(rs):
        if r.kind == 'raise':
            continue
        v = truthy(I, r.value)
        imp = bool(r.taint)
        u.prove('path %d: accepted => same unknowns' % i, r.pc + [v], fs(x.t) == fs(y.t), imprecise=imp)
        if faulty(r):
            continue
        ev = [c for c in r.log if c[0] == 'evalf']
        de = [c for c in r.log if c[0] == 'deq']
        bad = any(c[3] is None for c in ev) or any(c[3] is False for c in de)
        if bad:
            u.prove('path %d: a failed evaluation or a disagreeing sample => rejected' % i, r.pc, z3.Not(v), imprecise=imp)
            continue
        # every sample: both sides evaluated at one point and their difference tested
        ok = len(ev) == 2 * len(de)
        gl = []
        n = 0
        if ok:
            for k, c in enumerate(de):
                e1, e2 = ev[2 * k], ev[2 * k + 1]
                if z3.is_true(z3.simplify(e1[1] == y.t)):
                    e1, e2 = e2, e1
                same_pt = e1[2] is e2[2] or isinstance(e1[2], Ob) and isinstance(e2[2], Ob) and e1[2].t.eq(e2[2].t)
                ok = ok and same_pt
                gl.append(z3.And(e1[1] == x.t, e2[1] == y.t, c[1] == e1[3].t, c[2] == sub(e1[3].t, e2[3].t)))
                n += 1
        s = z3.Solver()
        s.add(*(r.pc + [v]))
        if s.check() != z3.unsat:
            n_acc += 1
            u.prove('path %d: accepted => at least two sample points' % i, r.pc + [v], n >= 2, imprecise=imp)
            u.prove('path %d: accepted => every sample compares the two sides at the same point' % i, r.pc + [v],
                    z3.And(*gl) if ok and gl else z3.BoolVal(False), imprecise=imp or not ok)
            u.prove('path %d: all samples agree => accepted' % i, r.pc, v, imprecise=imp)
    u.prove('acceptance is reached', [], n_acc > 0, imprecise=True)


def unit_guarded_steps(u, part):
    """The time-limited sympy steps: a failure or timeout is an exception (simplify, abs), None (evalf) or False (expand)."""
    w = ValWorld()
    I = u.interp(w)
    x, y = Ob(z3.Const('x', U), 'val'), Ob(z3.Const('y', U), 'val')
    ex = UF('v_expand2', U, U, U)

    def kinds(q, args):
        return u.explore(I, LP + q, args)
    for i, r in enumerate(kinds('sympy_expand_equal', [x, y])):
        u.prove('expand_equal path %d: never raises' % i, r.pc, r.kind != 'raise', info='%r' % (r.value,))
        if r.kind == 'raise':
            continue
        v = truthy(I, r.value)
        u.prove('expand_equal path %d: accepted => the expansions are equal' % i, r.pc + [v], ex(x.t, I.to_u(True)) == ex(y.t, I.to_u(True)), imprecise=bool(r.taint))
        u.prove('expand_equal path %d: a failing expansion is not agreement' % i, r.pc, z3.Not(v) if faulty(r) else z3.BoolVal(True), imprecise=bool(r.taint))
    for i, r in enumerate(kinds('sympy_evalf', [x, None])):
        u.prove('evalf path %d: never raises' % i, r.pc, r.kind != 'raise', info='%r' % (r.value,))
        if r.kind != 'raise' and faulty(r):
            u.prove('evalf path %d: failure gives None' % i, r.pc, r.value is None)
        if r.kind != 'raise' and r.value is not None:
            full = UF('v_evalf2', U, U, U)(x.t, z3.Const('None', U))
            # a Float left with a single bit of precision is an evaluation that cancelled completely: its value is 0
            good = z3.And(UF('precision_bits', U, INT)(full) == 1, r.value.v == 0) if isinstance(r.value, NumV) else I.to_u(r.value) == full
            u.assumed.add('sympy: a Float of precision 1 returned by evalf stands for 0 (all digits cancelled)')
            u.prove('evalf path %d: the value is the evaluation of the argument' % i, r.pc, good, imprecise=bool(r.taint))
    for q in ('sympy_simplify', 'sympy_abs'):
        for i, r in enumerate(kinds(q, [x])):
            if faulty(r):
                u.prove('%s path %d: failure raises an Exception' % (q, i), r.pc, r.kind == 'raise')
            if r.kind == 'raise':
                u.prove('%s path %d: raises an ordinary exception' % (q, i), r.pc, r.value.cls is None or issubclass(r.value.cls, Exception))


def unit_with_simplify(u, part):
    w, I = setup_ae(u)

    def parse(I, e):
        t = I.to_u(list(e.values())[0])
        out = []
        for k in range(3):
            if I.choose(CNONE(t, z3.IntVal(k))):
                out.append(None)
            else:
                out.append(Ob(CAND(t, z3.IntVal(k)), 'val'))
        return I.new_list(out)
    w.contracts[LP + '_sympy_parse'] = C(parse)
    a, b = const_str('gt'), const_str('gv')
    rs = u.explore(I, LP + 'are_equal_with_simplify', [a, b, z3.Bool('verbose')])
    prs = []
    for k in range(3):
        for l in range(3):
            x, y = CAND(a.t, z3.IntVal(k)), CAND(b.t, z3.IntVal(l))
            prs.append(z3.And(z3.Not(CNONE(a.t, z3.IntVal(k))), z3.Not(CNONE(b.t, z3.IntVal(l))), ae(I, Ob(x, 'val'), Ob(y, 'val'))))
    some = z3.Or(*prs)
    for i, r in enumerate(rs):
        imp = bool(r.taint)
        if r.kind == 'raise':
            u.prove('path %d: raises only when a comparison raises' % i, r.pc, faulty(r), imprecise=imp, info='%r' % (r.value,))
            continue
        v = truthy(I, r.value)
        u.prove('path %d: the verdict is a bool' % i, r.pc, E.is_bool(r.value), imprecise=imp)
        u.prove('path %d: accepted => some pair of parsed readings is equal' % i, r.pc + [v], some, imprecise=imp)
        if not faulty(r):
            u.prove('path %d: some pair of parsed readings equal => accepted' % i, r.pc + [some], v, imprecise=imp)


def unit_under_sympy(u, part):
    w = ValWorld()
    I = u.interp(w)

    def aws(I, e):
        a, b = two(e)
        if fault(I, 'are_equal_with_simplify'):
            raise PyExc(ExcV(None, (), 'callee: '))
        return AWS(I.to_u(a), I.to_u(b))
    w.contracts[LP + 'are_equal_with_simplify'] = C(aws)
    a, b = const_str('gt'), const_str('gv')
    for i, r in enumerate(u.explore(I, LP + 'are_equal_under_sympy', [a, b, z3.Bool('verbose')])):
        imp = bool(r.taint)
        u.prove('path %d: does not raise' % i, r.pc, r.kind != 'raise', imprecise=imp, info='%r' % (r.value,))
        if r.kind == 'raise':
            continue
        u.prove('path %d: the verdict is a bool' % i, r.pc, E.is_bool(r.value), imprecise=imp)
        v = truthy(I, r.value)
        if faulty(r):
            u.prove('path %d: an exception is not agreement' % i, r.pc, z3.Not(v), imprecise=imp)
        else:
            u.prove('path %d: accepted <=> some pair of readings is equal' % i, r.pc, v == AWS(a.t, b.t), imprecise=imp)


def unit_list_to_mat(u, part):
    """A flat list of n values as an r x c matrix: only for (n, 1) and (1, n), entries in order."""
    w = ValWorld()
    I = u.interp(w)
    lst = z3.Const('lst', U)
    n = UF('o_len', U, INT)(lst)
    M = UF('Matrix_of', U, U)
    rows, cols, cell, tr = UF('rows', U, INT), UF('cols', U, INT), UF('cell', U, INT, INT, U), UF('v_transpose1', U, U)
    el = UF('elem', U, INT, U)
    i, j = z3.Ints('ii jj')
    m = M(lst)
    old = w.ext

    def ext(dotted, args, kw):
        if dotted in ('sympy.Matrix', 'sympy.matrices.Matrix') and len(args) == 1:
            return Ob(M(I.to_u(args[0])), 'val')
        return old(dotted, args, kw)
    w.ext = ext
    w.assumed.add('sympy Matrix of a flat list of n values is n x 1 with the values in order; transpose exchanges rows and columns')
    facts = [n >= 1, rows(m) == n, cols(m) == 1, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), cell(m, i, 0) == el(lst, i))),
             rows(tr(m)) == cols(m), cols(tr(m)) == rows(m), z3.ForAll([i, j], cell(tr(m), i, j) == cell(m, j, i))]
    r0, c0 = z3.Ints('r0 c0')
    facts += [r0 >= 1, c0 >= 1]
    v = I.new_list(SeqV('list', n, lambda q: Ob(el(lst, rv(q)), 'val'), lst))

    def prep():
        for f in facts:
            I.assume(f)
    fits = z3.Or(z3.And(r0 == n, c0 == 1), z3.And(r0 == 1, c0 == n))
    for k, r in enumerate(u.explore(I, LP + '_list_to_mat', [v, r0, c0], prepare=prep)):
        imp = bool(r.taint)
        if r.kind == 'raise':
            u.prove('path %d: raises only when the shape does not fit' % k, r.pc, z3.BoolVal(True) if faulty(r) else z3.Not(fits), imprecise=imp)
            continue
        t = I.to_u(r.value)
        u.prove('path %d: same entries in order when the shape fits' % k, r.pc + [fits],
                z3.And(rows(t) == r0, cols(t) == c0,
                       z3.Or(z3.And(c0 == 1, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), cell(t, i, 0) == el(lst, i)))),
                             z3.And(r0 == 1, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), cell(t, 0, i) == el(lst, i)))))), imprecise=imp)
        u.prove('path %d: never a matrix of the requested shape when the list does not fit' % k, r.pc + [z3.Not(fits)],
                z3.Or(rows(t) != r0, cols(t) != c0), imprecise=imp)


def unit_only_i(u, part):
    """An expression whose only unknown is i is read with the imaginary unit in its place; any other is left alone."""
    w = ValWorld()
    I = u.interp(w)
    x = Ob(z3.Const('x', U), 'val')
    n, fs, name = UF('n_free', U, INT)(x.t), UF('free_sym', U, INT, U), UF('name', U, U)
    iz = z3.And(n == 1, name(fs(x.t, 0)) == I.lit('i'))
    subs = UF('v_subs3', U, U, U, U)
    for k, r in enumerate(u.explore(I, LP + 'expr_with_only_i', [x])):
        imp = bool(r.taint)
        if r.kind == 'raise':
            u.prove('path %d: raises only when substitution fails' % k, r.pc, faulty(r), imprecise=imp)
            continue
        if not (isinstance(r.value, tuple) and len(r.value) == 2):
            u.prove('path %d: returns (expression, found)' % k, r.pc, False, imprecise=imp)
            continue
        v, f = I.to_u(r.value[0]), truthy(I, r.value[1])
        u.prove('path %d: found <=> the only unknown is i' % k, r.pc, f == iz, imprecise=imp)
        u.prove('path %d: the expression with i replaced by I' % k, r.pc + [iz], v == subs(x.t, fs(x.t, 0), z3.Const('ext:sympy.I', U)), imprecise=imp)
        u.prove('path %d: otherwise unchanged' % k, r.pc + [z3.Not(iz)], v == x.t, imprecise=imp)


def unit_get_type(u, part):
    """The kind of a parsed value."""
    w = ValWorld()
    I = u.interp(w)
    x = Ob(z3.Const('x', U), 'val')
    ISI = lambda c: UF('isinstance:' + c, U, BOOL)(x.t)
    ISE = UF('is_Equality', U, BOOL)(x.t)
    rel = UF('rel_op', U, U)(x.t)
    Q = LP + '_get_sympy_type'
    L = lambda k: I.lit(TYPES[k])
    for v, k in ((I.new_list(SeqV('list', z3.Int('n'), lambda i: Ob(UF('elem', U, INT, U)(x.t, rv(i)), 'val'), x.t)), 'VEC'),
                 (SeqV('set', z3.Int('n'), lambda i: Ob(UF('elem', U, INT, U)(x.t, rv(i)), 'val'), x.t), 'SET')):
        for i, r in enumerate(u.explore(I, Q, [v])):
            u.prove('%s path %d' % (k, i), r.pc, r.kind != 'raise' and I.to_u(r.value) == L(k), imprecise=bool(r.taint))

    def has(o, name, args, kw):
        if name == 'has' and o.ty == 'val':
            return UF('has_I', U, BOOL)(o.t) if args and I.same(args[0], ExtV('sympy.I')) else None
        return ValWorld.ob_method(w, o, name, args, kw)
    w.ob_method = has
    # disjoint classes of sympy objects
    facts = [z3.Implies(ISE, z3.And(ISI('Relational'), rel == I.lit('=='))), z3.Implies(ISI('Relational'), z3.Not(ISI('Expr'))),
             z3.Implies(z3.And(ISI('Relational'), z3.Not(ISE)), rel != I.lit('==')),
             z3.Not(z3.And(ISI('Matrix'), ISI('Expr'))), z3.Not(z3.And(ISI('Matrix'), ISI('Relational')))]

    def prep():
        for f in facts:
            I.assume(f)
    for i, r in enumerate(u.explore(I, Q, [x], prepare=prep)):
        imp = bool(r.taint)
        if r.kind == 'raise':
            u.prove('path %d: raises only on an equality whose left side has no inverse' % i, r.pc, ISE, imprecise=imp, info='%r' % (r.value,))
            continue
        t = I.to_u(r.value)
        u.prove('path %d: an equation or function' % i, r.pc + [ISE], z3.Or(t == L('FUNC'), t == L('EQUL')), imprecise=imp)
        u.prove('path %d: a lone symbol on the left defines a function' % i, r.pc + [ISE, UF('is_symbol', U, BOOL)(UF('lhs', U, U)(x.t))], t == L('FUNC'), imprecise=imp)
        u.prove('path %d: an inequality' % i, r.pc + [ISI('Relational'), z3.Not(ISE)], t == L('INEQ'), imprecise=imp)
        u.prove('path %d: a complex expression' % i, r.pc + [ISI('Expr'), UF('has_I', U, BOOL)(x.t), z3.Not(ISE)], t == L('CPLX'), imprecise=imp)
        u.prove('path %d: an expression' % i, r.pc + [ISI('Expr'), z3.Not(UF('has_I', U, BOOL)(x.t)), z3.Not(ISE)], t == L('EXPR'), imprecise=imp)
        u.prove('path %d: a matrix' % i, r.pc + [ISI('Matrix'), z3.Not(ISE)], t == L('MAT'), imprecise=imp)


def unit_sympy_parse(u, part):
    """The readings of an answer come from the three parsers applied to that answer; a failing parser gives no reading."""
    w = ValWorld()
    I = u.interp(w)
    ok = {}

    def parser(name):
        def f(I, e):
            if fault(I, name):
                raise PyExc(ExcV(None, (), 'callee: ' + name))
            return Ob(UF('by_' + name, U, U)(I.to_u(list(e.values())[0])), 'val')
        return C(f)
    w.contracts[NO + 'latex2sympy'] = parser('l2s')
    old = w.ext

    def ext(dotted, args, kw):
        if dotted.endswith('.parse_latex'):
            if fault(I, 'parse_latex'):
                raise PyExc(ExcV(None, (), 'callee: parse_latex'))
            return Ob(UF('by_parse_latex', U, U)(I.to_u(args[0])), 'val')
        if dotted.endswith('.parse_expr'):
            if fault(I, 'parse_expr'):
                raise PyExc(ExcV(None, (), 'callee: parse_expr'))
            return Ob(UF('by_parse_expr', U, U)(I.to_u(args[0])), None)
        if dotted.endswith('sympy.Symbol') or dotted.endswith('.Symbol'):
            return Ob(UF('Symbol', U, U)(I.to_u(args[0])), 'val')
        return old(dotted, args, kw)
    w.ext = ext
    ob = w.binop
    w.binop = lambda op, a, b: Ob(I.fresh(U, 'transformations'), 'tr') if any(isinstance(v, (ExtV, tuple)) or isinstance(v, Ob) and v.ty == 'tr' for v in (a, b)) else ob(op, a, b)
    e = const_str('expr')
    l2 = UF('by_l2s', U, U)(e.t)
    powd = I.opaque_str('replace', e, '^', '**').t if True else None
    for i, r in enumerate(u.explore(I, LP + '_sympy_parse', [e])):
        imp = bool(r.taint)
        u.prove('path %d: does not raise' % i, r.pc, r.kind != 'raise', imprecise=imp, info='%r' % (r.value,))
        if r.kind == 'raise':
            continue
        c = I.items_of(r.value) if not isinstance(r.value, ListV) else r.snap[1][r.value.id]
        if not isinstance(c, list):
            u.prove('path %d: a list of readings' % i, r.pc, False, imprecise=True)
            continue
        failed = {x[1] for x in r.log if x[0] == 'fault'}
        for k, v in enumerate(c):
            if v is None:
                continue
            if isinstance(v, ListV):
                continue
            t = I.to_u(v)
            s = str(t)
            src = 'l2s' if 'by_l2s' in s else 'parse_latex' if 'by_parse_latex' in s else 'parse_expr' if 'by_parse_expr' in s else None
            u.prove('path %d: reading %d comes from a parser that succeeded on the answer' % (i, k), r.pc, src is not None and src not in failed, imprecise=imp)
            if src == 'l2s':
                u.prove('path %d: reading %d is the parse of the answer itself' % (i, k), r.pc, t == l2, imprecise=imp)
        if 'l2s' not in failed:
            u.prove('path %d: the LaTeX reading is among the readings' % i, r.pc + [l2 != z3.Const('None', U)],
                    z3.Or(*[I.to_u(v) == l2 for v in c if isinstance(v, Ob)] + [z3.BoolVal(False)]), imprecise=imp)
