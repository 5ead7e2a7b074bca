"""Contracts of the conversion functions of latex2sympy/latex2sympy2.py.

den(tree) is the object a parse tree stands for.  Every function is verified against the contract "the result is den(tree)", with the
functions it calls on proper subtrees assumed to satisfy theirs (structural induction on the tree)."""
from pyvc.unit import REPO
from .texworld import *

L2 = M + ':'


def eq_ev(w, v, want):
    """The goal "v is want"."""
    e = w.to_ev(v)
    if e is None or e.kind != want.kind or e.kind == 'J':
        return False
    if e.kind == 'S':
        if e is want or e.val.eq(want.val):
            return True
        return e.val == want.val
    return poly_eq(w, e.val, want.val)


def poly_eq(w, p, q):
    d = padd(w.pnorm(p), pscale(z3.RealVal(-1), w.pnorm(q)))
    gs = [z3.simplify(c == 0) for c in d.values()]
    if any(z3.is_false(g) for g in gs):
        return False
    gs = [g for g in gs if not z3.is_true(g)]
    return z3.And(*gs) if gs else True


def sig_of(c):
    """The production on this path, for the name of an obligation."""
    a = c.alts
    if len(a) == 1:
        return ' '.join(n for k, n, l in a[0])
    names = []
    for k, n, l in a[0]:
        if all(any(n == m for _, m, _ in s) for s in a):
            names.append(n)
    return ' '.join(names)


def conv(u, fname, rule, spec, mode='S', restrict=None, call=None, prepare=None, matrices=None, tag='', limit=None):
    """All paths through fname on a tree of that rule; spec(w, I, c, kind, v) gives [(name, goal)] or None for input outside the property."""
    w = TexWorld(REPO, mode)
    if restrict:
        w.restrict.update(restrict)
    I = u.interp(w)
    f = u.func_value(I, L2 + fname)
    if prepare:
        prepare(w)

    def go():
        w.msub, w.junk = {}, 0
        c = CtxV(w, rule, 'c')
        c.open = True
        try:
            v = call(w, I, f, c) if call else I.call_func(f, [c], {}, use_contract=False)
            kind = 'return'
        except PyExc as e:
            kind, v = 'raise', e.exc
        goals = spec(w, I, c, kind, v)
        return kind, v, goals, (sig_of(c) if c.alts else '?')
    rs = I.explore(go, limit=limit)
    u.paths += len(rs)
    done = 0
    for i, r in enumerate(rs):
        if r.kind != 'ok':
            raise Unsupported('specification of %s: %r' % (fname, r.value))
        kind, v, goals, sig = r.value
        if goals is None:
            continue
        if matrices is not None and any(x[0] == 'matrix' for x in r.log) != matrices:
            continue
        imp = bool(r.taint)
        for name, g in goals:
            done += 1
            u.prove('%s%s [%s] path %d: %s' % (fname, tag, sig[:80], i, name), r.pc, g, imprecise=imp,
                    info='%s %r; unmodelled: %s' % (kind, v, sorted(r.taint)[:3]))
    u.results.append(dict(name='cover: %s%s has verified paths' % (fname, tag), func=u.func, result='proved' if done else 'vacuous', backend='z3', time=0.0, cover=True))
    return rs


def denotes(get):
    """A specification: the result is get(w, I, c), None when the input is outside the property."""
    def spec(w, I, c, kind, v):
        want = get(w, I, c)
        if want is None:
            return None
        if kind == 'raise':
            return [('does not raise (%s)' % (v.why,), False)]
        return [('denotes its tree', eq_ev(w, v, want))]
    return spec


def mm(part):
    """Scalar paths belong to P13/P14, the paths with a matrix to P20."""
    return dict(mode='M', matrices=True) if part == 'P20' else dict(mode='S', matrices=False)


# ---------------------------------------------------------------- operators

REL_OP = {'LT': '<', 'LTE': '<=', 'GT': '>', 'GTE': '>=', 'EQUAL': '=', 'ASSIGNMENT': '=', 'UNEQUAL': '!='}
FLIP = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '=': '=', '!=': '!='}


def unit_relation(u, part):
    def spec(w, I, c, kind, v):
        if c.n('expr'):
            want = w.den(c.child('expr'))
            return [('an expression is itself', kind == 'return' and eq_ev(w, v, want))]
        if c.n('IN'):
            return None
        op = [REL_OP[t] for t in REL_OP if c.n(t)][0]
        l, r = w.den(c.child('relation', 0)), w.den(c.child('relation', 1))
        if kind == 'raise' or not isinstance(v, RelV):
            return [('is the relation written', False)]
        a, b = w.to_ev(v.l), w.to_ev(v.r)
        if a is None or b is None:
            return [('is the relation written', False)]
        straight = band(v.op == op, zb(eq_ev(w, a, l)), zb(eq_ev(w, b, r)))
        flipped = band(v.op == FLIP[op], zb(eq_ev(w, a, r)), zb(eq_ev(w, b, l)))
        return [('is the relation written', bor(straight, flipped)), ('is not evaluated to a truth value', not getattr(v, 'evaluated', False))]
    conv(u, 'convert_relation', 'relation', spec)


def unit_expr(u, part):
    conv(u, 'convert_expr', 'expr', denotes(lambda w, I, c: w.den(c.child('additive'))), **mm(part))


def spec_add(w, I, c):
    if c.n('mp'):
        return w.den(c.child('mp'))
    l, r = w.den(c.child('additive', 0)), w.den(c.child('additive', 1))
    if l.kind != r.kind:
        return None
    return w.add([l, r if c.n('ADD') else w.mul([-1, r])])


def unit_add(u, part):
    conv(u, 'convert_add', 'additive', denotes(spec_add), **mm(part))


def spec_mp(rule):
    nofunc = rule == 'mp_nofunc'

    def get(w, I, c):
        if c.n('unary_nofunc' if nofunc else 'unary'):
            return w.den(c.child('unary_nofunc' if nofunc else 'unary'))
        l, r = w.den(c.child(rule, 0)), w.den(c.child(rule, 1))
        if c.has('MUL', 'CMD_TIMES', 'CMD_CDOT'):
            return w.mul([l, r])
        if c.has('DIV', 'CMD_DIV', 'COLON'):
            return w.mul([l, w.power(r, -1)])
        if l.kind == r.kind == 'S':
            return EV('S', UFR('MOD', l.val, r.val))
        return None
    return get


def unit_mp(u, part):
    for rule in ('mp', 'mp_nofunc'):
        conv(u, 'convert_mp', rule, denotes(spec_mp(rule)), tag=' of ' + rule, **mm(part))


def spec_unary(rule):
    def get(w, I, c):
        if c.n(rule):
            e = w.den(c.child(rule))
            return e if c.n('ADD') else w.mul([-1, e])
        xs = [w.den(c.child('postfix', i)) for i in range(c.n('postfix'))]
        if rule == 'unary_nofunc':
            xs += [w.den(c.child('postfix_nofunc', i)) for i in range(c.n('postfix_nofunc'))]
        if len(xs) == 1:
            return xs[0]
        return w.mul(xs)
    return get


def allow(*names):
    return lambda w: w.allow_rec.update(names)


def unit_unary(u, part):
    for rule in ('unary', 'unary_nofunc'):
        # products of any length are the business of convert_postfix_list; three factors here (two when matrices may occur)
        few = {rule: lambda a: sum(1 for k, n, l in a if n.startswith('postfix')) <= 2} if part == 'P20' else None
        conv(u, 'convert_unary', rule, denotes(spec_unary(rule)), tag=' of ' + rule, prepare=allow('convert_postfix_list'), restrict=few, **mm(part))


def spec_exp(rule):
    def get(w, I, c):
        if not c.n(rule):
            k = 'comp_nofunc' if rule == 'exp_nofunc' else 'comp'
            return w.den(c.child(k))
        b = w.den(c.child(rule))
        e = w.den(c.child('atom') if c.n('atom') else c.child('expr'))
        if e.kind != 'S':
            return None
        return w.power(b, e)
    return get


def unit_exp(u, part):
    for rule in ('exp', 'exp_nofunc'):
        conv(u, 'convert_exp', rule, denotes(spec_exp(rule)), tag=' of ' + rule, **mm(part))


def inner(w, c):
    """den of the only expression inside a bracket rule."""
    return w.den(c.child('expr'))


def spec_comp(rule):
    def get(w, I, c):
        for k in ('func', 'atom', 'binom', 'matrix'):
            if c.n(k):
                return w.den(c.child(k))
        if c.n('det'):
            return EV('S', z3.Real('det(%s)' % pkey(Frozen(w.pnorm(w.den(c.child('det')).val)))))
        for k in ('group', 'norm_group', 'abs_group', 'floor_group', 'ceil_group'):
            if c.n(k):
                e = inner(w, c.child(k))
                if k == 'group':
                    return e
                if k == 'norm_group':
                    return EV('S', z3.Real('norm(%s)' % pkey(Frozen(w.pnorm(e.val))))) if e.kind == 'M' else None
                if e.kind != 'S':
                    return None
                return EV('S', UFR({'abs_group': 'ABS', 'floor_group': 'FLOOR', 'ceil_group': 'CEILING'}[k], e.val))
    return get


def unit_comp(u, part):
    for rule in ('comp', 'comp_nofunc'):
        conv(u, 'convert_comp', rule, denotes(spec_comp(rule)), tag=' of ' + rule, **mm(part))


def unit_binom(u, part):
    conv(u, 'convert_binom', 'binom', denotes(lambda w, I, c: EV('S', UFR('BINOMIAL', w.den(c.label('upper')).val, w.den(c.label('lower')).val))))


# ---------------------------------------------------------------- products of any number of factors

def unit_postfix_list(u, part):
    """For a list of factors of any length: convert_postfix_list(arr, i) is the product of the factors from i on; a derivative operator
    applies to the product that follows it."""
    w = TexWorld(REPO, 'M' if part == 'P20' else 'S')
    I = u.interp(w)
    f = u.func_value(I, L2 + 'convert_postfix_list')
    n, i0 = z3.Int('number of factors'), z3.Int('i')
    KINDS = {'P13': (0, 1), 'P14': (2,), 'P20': (0, 3, 4)}[part]
    state = {}

    def postfix(c):
        if c.name in state['res']:
            return state['res'][c.name]
        k = KINDS[I.choose_n([z3.Int('kind:' + c.name) == x for x in KINDS])]
        if k == 0:
            r = w.den(c)
        elif k == 1:
            r = w.EMPTY
        elif k == 2:
            r = I.new_list([w.symbol('wrt of ' + c.name, True)])
        elif k == 3:
            r = [I.new_list([w.opaque('M', 'row0'), w.opaque('M', 'row1')]), I.new_list([w.opaque('M', 'row0')]), I.new_list([])][I.choose_n([True] * 3)]
            I.log('matrix', 'list')
        else:
            r = (AppV('tuple:', ('P', 'D')))
            I.log('matrix', 'tuple')
        state['res'][c.name] = r
        state['kind'] = k
        return r
    w.special = postfix

    def canon(j):
        for k in (i0, i0 + 1, i0 + 2):
            if not I.ex.feasible(rv(j) != k):
                return z3.simplify(k)
        return z3.simplify(rv(j))

    def elem(j):
        return CtxV(w, 'postfix', 'arr[%s]' % canon(j))

    def rest(j):
        return w.opaque('S' if w.mode == 'S' else 'SM'[I.choose_n([z3.Not(z3.Bool('restmatrix')), z3.Bool('restmatrix')])], 'product from %s' % canon(j))

    def override(g, args, kw, orig=w.func_override):
        if g.name == 'convert_postfix_list':
            env, names = I.bind(g, args, kw)
            a, j = [env[x] for x in names[:2]]
            if isinstance(a, SeqV):
                w.used(g.qual)
                I.oblige('recursive call in range', z3.And(rv(j) > i0, rv(j) < n))
                r = rest(j)
                if r.kind == 'M':
                    I.log('matrix', 'rest')
                return r
        return orig(g, args, kw)

    def go():
        w.msub, w.junk = {}, 0
        state.update(res={}, kind=None)
        I.assume(z3.And(n >= 1, i0 >= 0, i0 < n))
        arr = SeqV('list', n, elem)
        try:
            w.func_override = lambda g, a, k: None
            fr = lambda g, a, k: override(g, a, k)
            first = [True]

            def ov(g, a, k):
                if g is f and first[0]:
                    first[0] = False
                    return None
                return override(g, a, k)
            w.func_override = ov
            v = I.call_func(f, [arr, i0], {}, use_contract=False)
            kind = 'return'
        except PyExc as e:
            kind, v = 'raise', e.exc
        w.func_override = lambda g, a, k: override(g, a, k)
        last = I.choose(i0 == n - 1)
        x = postfix(elem(i0))
        k = state['kind']
        if k == 2:
            if last:
                return kind, v, [('an operator needs an operand', kind == 'raise')]
            want = EV('S', UFR('DERIVATIVE', rest(i0 + 1).val, I.content(x)[0].val))
        elif k in (3, 4):
            if not last:
                return kind, v, None
            return kind, v, [('is the value of the factor', kind == 'return' and v is x)]
        elif last:
            want = x
        else:
            want = w.mul([x, rest(i0 + 1)])
        if kind == 'raise':
            return kind, v, [('does not raise (%s)' % v.why, False)]
        return kind, v, [('is the product from here on', eq_ev(w, v, want))]
    rs = I.explore(go)
    u.paths += len(rs)
    for j, r in enumerate(rs):
        kind, v, goals = r.value
        if goals is None or part == 'P20' and not any(x[0] == 'matrix' for x in r.log):
            continue
        for name, g in goals:
            u.prove('convert_postfix_list path %d: %s' % (j, name), r.pc, g, imprecise=bool(r.taint), info='%s %r' % (kind, v))
    u.discharge_side(I)


def spec_postfix(rule):
    def get(w, I, c):
        x = w.den(c.child('exp_nofunc' if rule == 'postfix_nofunc' else 'exp'))
        for i in range(c.n('postfix_op')):
            op = c.child('postfix_op', i)
            if op.n('BANG'):
                if x.kind != 'S':
                    return None
                x = EV('S', UFR('FACT', x.val))
            elif op.n('transpose'):
                if x.kind == 'M':
                    x = EV('M', ptrans(w.pnorm(x.val)))
            else:
                ev = op.child('eval_at')
                vals = []
                for k in ('eval_at_sup', 'eval_at_sub'):
                    if ev.n(k):
                        q = ev.child(k).child('equality')
                        a, b = w.den(q.child('expr', 0)), w.den(q.child('expr', 1))
                        if not x.kind == a.kind == b.kind == 'S':
                            return None
                        vals.append(UFR('SUBS', x.val, a.val, b.val))
                x = EV('S', vals[0] if len(vals) == 1 else vals[0] - vals[1])
        return x
    return get


ONLY_EQ = {'eval_at_sub': lambda a: any(n == 'equality' for k, n, l in a), 'eval_at_sup': lambda a: any(n == 'equality' for k, n, l in a)}


def unit_postfix(u, part):
    for rule in ('postfix', 'postfix_nofunc'):
        r = dict(ONLY_EQ)
        r[rule] = lambda a: sum(1 for k, n, l in a if n == 'postfix_op') <= (1 if part == 'P20' else 2)
        conv(u, 'convert_postfix', rule, denotes(spec_postfix(rule)), tag=' of ' + rule, restrict=r, **mm(part))


# ---------------------------------------------------------------- atoms

def strip(I, t):
    from pyvc.builtins_ import call_method
    return call_method(I, t, 'strip', [], {})


def pieces_without(t, ch):
    if isinstance(t, str):
        return t.replace(ch, '')
    return TextV.make([p.replace(ch, '') if isinstance(p, str) else p for p in t.pieces])


def atom_name(w, I, c):
    """The name of the symbol written (without its subscript)."""
    if c.n('LETTER_NO_E'):
        return w.text_of(c.child('LETTER_NO_E'))
    if c.n('GREEK_CMD'):
        t = w.text_of(c.child('GREEK_CMD'))
        return TextV([p for p in t.pieces if isinstance(p, Chunk)])
    if c.n('OTHER_SYMBOL_CMD'):
        return strip(I, w.text_of(c.child('OTHER_SYMBOL_CMD')))
    a = c.child('accent')
    base = w.text_of(a.label('base'))
    sym = w.tok_text(w.start_of(a.child('accent_symbol')))
    kind = {'\\bar': 'bar', '\\overline': 'bar', '\\vec': 'vec', '\\overrightarrow': 'vec', '\\tilde': 'tilde', '\\widetilde': 'tilde'}.get(sym)
    if kind:
        return TextV([base, kind])
    return TextV([sym, '{', base, '}'])


def subscript_name(w, I, c):
    if not c.n('subexpr'):
        return ''
    s = c.child('subexpr')
    t = strip(I, w.text_of(s.child('expr') if s.n('expr') else s.child('atom') if s.n('atom') else s.child('args')))
    from pyvc.builtins_ import call_builtin
    n = call_builtin(I, 'len', [t], {})
    return TextV(['_{', t, '}']) if I.choose(zb(n > 1)) else TextV(['_', t])


def supexpr_val(w, c):
    s = c.child('supexpr')
    return w.den(s.child('expr') if s.n('expr') else s.child('atom'))


def spec_atom(part):
    def get(w, I, c):
        if c.n('atom_expr'):
            a = c.child('atom_expr')
            name = atom_name(w, I, a)
            sub = subscript_name(w, I, a)
            if a.n('LETTER_NO_E') and not a.n('subexpr') and I.choose(zb(I.eq(name, 'I'))):
                s = EV('S', z3.Real('IMAG'))
            elif a.n('LETTER_NO_E') and I.choose(zb(I.eq(name, 'I'))):
                return None
            else:
                s = w.symbol(TextV([name, sub]), True)
            if a.n('supexpr'):
                return w.power(s, supexpr_val(w, a))
            return s
        if c.n('SYMBOL'):
            t = w.text_of(c.child('SYMBOL'))
            return {'\\pi': EV('S', z3.Real('PI')), '\\infty': EV('S', z3.Real('OO')), '\\emptyset': w.EMPTY}.get(t.replace('\\$', '').replace('\\%', ''))
        for k in ('number', 'e_notation'):
            if c.n(k):
                return w.dec(pieces_without(w.text_of(c.child(k)), ','))
        if c.n('percent_number'):
            p = c.child('percent_number')
            return w.mul([w.dec(pieces_without(w.text_of(p.child('number')), ',')), w.num(z3.RealVal('1/100'))])
        if c.n('DIFFERENTIAL'):
            t = w.text_of(c.child('DIFFERENTIAL'))
            return w.symbol(TextV(['d', Chunk('diffname(%s)' % t.key(), None, 1)]), True)
        if c.n('mathit'):
            return w.symbol(w.text_of(c.child('mathit').child('mathit_text')), True)
        if c.n('frac'):
            return w.den(c.child('frac'))
        if c.n('VARIABLE'):
            t = w.text_of(c.child('VARIABLE'))
            name = [p for p in t.pieces if isinstance(p, Chunk)][0]
            percent = t.pieces[-1] == '}\\%'
            if I.choose(z3.Bool('declared:VARIABLE_VALUES:<%s>' % name.key)):
                x = EV('S', z3.Real('value:<%s>' % name.key))
            else:
                x = None
            return ('variable', name, percent, x)
    return get


def unit_atom(u, part):
    get = spec_atom(part)

    def spec(w, I, c, kind, v):
        want = get(w, I, c)
        if isinstance(want, tuple):
            if part == 'P13':
                return None
            _, name, percent, x = want
            if kind == 'raise':
                return [('does not raise (%s)' % v.why, False)]
            if x is None:
                e = w.to_ev(v)
                if e is None:
                    return [('is a symbol', False)]
                if percent:
                    # symbol/100
                    s = [a for a in (e.shape[1] if e.shape and e.shape[0] == 'Mul' else []) if a.shape and a.shape[0] == 'Sym']
                    if len(s) != 1:
                        I.taint('another form of a percentage')
                        return [('is a percentage of the symbol', False)]
                    sy = s[0]
                    gs = [('is a hundredth of the symbol', e.val == sy.val * z3.RealVal('1/100'))]
                else:
                    sy, gs = e, []
                if not (sy.shape and sy.shape[0] == 'Sym'):
                    return gs + [('is a symbol', False)]
                nm = sy.shape[1]
                ps = nm.pieces if isinstance(nm, TextV) else [nm]
                return gs + [('a name without a value is a symbol of its own (its name determines it, and it is no plain symbol of that name)',
                              any(isinstance(p, Chunk) and p.key == name.key for p in ps) and len(ps) > 1)]
            want = w.mul([x, w.num(z3.RealVal('1/100'))]) if percent else x
            return [('is the value given', eq_ev(w, v, want))]
        if part == 'P21' or want is None:
            return None
        if kind == 'raise':
            return [('does not raise (%s)' % v.why, False)]
        return [('denotes its text', eq_ev(w, v, want))]

    def prep(w):
        w.no_decl = True
    conv(u, 'convert_atom', 'atom', spec, prepare=prep, matrices=None,
         restrict={'atom': (lambda a: any(n == 'VARIABLE' for k, n, l in a)) if part == 'P21' else None} if part == 'P21' else None)


# ---------------------------------------------------------------- fractions and derivatives

def frac_form(w, I, c):
    """What \\frac{upper}{lower} stands for, from its tokens: ('op', wrt) d/dx, ('der', expr, wrt) dy/dx, or ('frac', a, b)."""
    up, lo = c.label('upper'), c.label('lower')
    P = w.g.toknum
    if isinstance(up, CtxV) and isinstance(lo, CtxV):
        ls, le, us = w.start_of(lo), w.start_of(lo, True), w.start_of(up)
        d = p = False
        wrt = None
        if I.choose(band(z3.Bool('same:' + lo.name), ls.types == P['DIFFERENTIAL'])):
            d, wrt = True, TextV([Chunk('diffname(%s)' % w.tok_text(ls).key(), None, 1)])
        elif I.choose(band(z3.Int('ntokens:' + lo.name) == 2, ls.types == P['SYMBOL'], zb(I.eq(w.tok_text(ls), '\\partial')),
                           bor(le.types == P['LETTER_NO_E'], le.types == P['GREEK_CMD']))):
            p, wrt = True, w.tok_text(le)
            if I.choose(le.types == P['GREEK_CMD']):
                wrt = strip(I, I.slice(wrt, 1, None, None))
        if d or p:
            s = w.symbol(wrt, True)
            if d and I.choose(band(z3.Bool('same:' + up.name), us.types == P['LETTER_NO_E'], zb(I.eq(w.tok_text(us), 'd')))):
                return ('op', s)
            if p and I.choose(band(z3.Bool('same:' + up.name), us.types == P['SYMBOL'], zb(I.eq(w.tok_text(us), '\\partial')))):
                return ('op', s)
            from pyvc.builtins_ import call_method
            text = w.text_of(up)
            if d and I.choose(zb(call_method(I, text, 'startswith', ['d'], {}))):
                return ('der', w.parsed(key_of(I.slice(text, 1, None, None)), True), s)
            if p and I.choose(zb(I.eq(w.tok_text(us), '\\partial'))):
                return ('der', w.parsed(key_of(I.slice(text, len('\\partial'), None, None)), True), s)
    a = w.den(up) if isinstance(up, CtxV) else w.dec(w.tok_text(c.label('upperd')))
    b = w.den(lo) if isinstance(lo, CtxV) else w.dec(w.tok_text(c.label('lowerd')))
    return ('frac', a, b)


def key_of(t):
    return t if isinstance(t, str) else t.key()


def unit_frac(u, part):
    def spec(w, I, c, kind, v):
        f = frac_form(w, I, c)
        if (f[0] == 'frac') != (part in ('P13', 'P20')):
            return None
        if kind == 'raise':
            return [('does not raise (%s)' % v.why, False)]
        if f[0] == 'op':
            l = I.content(v) if isinstance(v, ListV) else None
            return [('is the operator d/dx', isinstance(l, list) and len(l) == 1 and eq_ev(w, l[0], f[1]))]
        if f[0] == 'der':
            return [('is the derivative written', eq_ev(w, v, EV('S', UFR('DERIVATIVE', f[1].val, f[2].val))))]
        a, b = f[1:]
        return [('is the quotient', eq_ev(w, v, w.mul([a, w.power(b, -1)])))]
    conv(u, 'convert_frac', 'frac', spec, **(mm(part) if part in ('P13', 'P20') else {}))


# ---------------------------------------------------------------- functions

TRIG = ('sin', 'cos', 'tan', 'csc', 'sec', 'cot', 'sinh', 'cosh', 'tanh')
SINGLE = {'FUNC_ARC' + x.upper(): ('fun', 'a' + x) for x in TRIG}
SINGLE.update({'FUNC_AR' + x.upper(): ('fun', 'a' + x) for x in ('sinh', 'cosh', 'tanh')})
SINGLE.update({'FUNC_' + x.upper(): ('trig', x) for x in TRIG})
for _k in list(SINGLE):
    SINGLE[_k + '_NAME'] = SINGLE[_k]
SINGLE.update({'FUNC_FLOOR': ('FLOOR',), 'FUNC_FLOOR_NAME': ('FLOOR',), 'FUNC_CEIL': ('CEILING',), 'FUNC_CEIL_NAME': ('CEILING',), 'FUNC_LOG': ('log',), 'FUNC_LN': ('ln',),
               'FUNC_EXP': ('exp',)})
SCALAR_SINGLE = set(SINGLE)


def fname_token(w, c, rule):
    """The token that names the function."""
    n = c.child(rule)
    for r in list(w.g.acc[n.rule].values()):
        if r[0] == 'rule' and n.n(r[1]):
            k = n.child(r[1])
            return k.split(lambda a: a[0][1]), k
    raise Unsupported('function name')


def exponent(w, c):
    return supexpr_val(w, c) if c.n('supexpr') else None


def head(name, *extra):
    """Restrict func to the productions that begin so (after an optional condition on the rest)."""
    return lambda a: a[0][1] in (name if isinstance(name, tuple) else (name,)) and all(f(a) for f in extra)


def count(a, name):
    return sum(1 for k, n, l in a if n == name)


def single_arg(w, c):
    if c.n('L_PAREN'):
        return w.den(c.child('func_single_arg'))
    return w.den(c.child('func_single_arg_noparens'))


def spec_single(w, I, c):
    tok, _ = fname_token(w, c, 'func_normal_single_arg')
    if tok not in SINGLE:
        return None
    k = SINGLE[tok]
    a = single_arg(w, c)
    if k[0] in ('log', 'ln'):
        base = w.num(z3.RealVal(10)) if k[0] == 'log' else EV('S', z3.Real('E'))
        if c.n('subexpr'):
            s = c.child('subexpr')
            if s.n('args'):
                return None
            base = w.den(s.child('atom') if s.n('atom') else s.child('expr'))
        r = w.sfun('log', [a, base])
    elif k[0] == 'exp':
        r = EV('S', mk_pow(z3.Real('E'), a.val))
    elif k[0] in ('FLOOR', 'CEILING'):
        r = EV('S', UFR(k[0], a.val))
    else:
        r = EV('S', UFR('fun:' + k[1], a.val))
    e = exponent(w, c)
    if e is None:
        return r
    if k[0] == 'trig' and w.is_shape(e, 'Num') and I.choose(e.val == -1):
        return EV('S', UFR('fun:a' + k[1], a.val))
    return w.power(r, e)


def single_ok(a):
    """At most one subscript and one exponent, brackets without \\left."""
    return count(a, 'L_LEFT') == count(a, 'R_RIGHT') == 0 and count(a, 'ML_LEFT') == count(a, 'MR_RIGHT') == 0


def names(*toks):
    return lambda a: a[0][1] in toks


def unit_func_single(u, part):
    """\\sin, \\log_b, \\operatorname{...}: every name of the grammar, with and without exponent, base and brackets."""
    groups = [('with a base', ('FUNC_LOG', 'FUNC_LN'), lambda a: single_ok(a)),
              ('without a base', tuple(t for t in SINGLE if t not in ('FUNC_LOG', 'FUNC_LN')), lambda a: single_ok(a) and count(a, 'subexpr') == 0)]
    for tag, toks, ok in groups:
        conv(u, 'convert_func', 'func', denotes(spec_single), tag=' ' + tag, matrices=False,
             restrict={'func': head('func_normal_single_arg', ok), 'func_normal_functions_single_arg': names(*toks), 'func_operator_names_single_arg': names(*toks),
                       'func_normal_single_arg': lambda a, toks=toks: count(a, 'CMD_OPERATORNAME') == 0 or any(t.endswith('_NAME') for t in toks)}, limit=20000)


MULTI = {'FUNC_GCD': 'GCD', 'FUNC_GCD_NAME': 'GCD', 'FUNC_LCM': 'LCM', 'FUNC_LCM_NAME': 'LCM', 'FUNC_MAX': 'Max', 'FUNC_MIN': 'Min'}


def multi_args(w, I, c, rule):
    l = I.content(w.split_text(ArgText(c.child(rule))))
    return l


def spec_multi(w, I, c):
    tok, _ = fname_token(w, c, 'func_normal_multi_arg')
    if tok not in MULTI:
        return None
    rule = 'func_multi_arg' if c.n('func_multi_arg') else 'func_multi_arg_noparens'
    xs = [w.parsed(key_of(t), True) for t in multi_args(w, I, c, rule)]
    if MULTI[tok] in ('Max', 'Min'):
        r = w.sfun(MULTI[tok], xs)
    else:
        r = w.sfun(MULTI[tok].lower(), xs)
    e = exponent(w, c)
    return r if e is None else w.power(r, e)


def unit_func_multi(u, part):
    conv(u, 'convert_func', 'func', denotes(spec_multi), matrices=False,
         restrict={'func': head('func_normal_multi_arg', single_ok, lambda a: count(a, 'subexpr') == 0),
                   'func_normal_functions_multi_arg': names(*MULTI), 'func_operator_names_multi_arg': names(*MULTI)})


def spec_user(w, I, c):
    fn = key_of(w.text_of(c.child('atom_expr_no_supexpr')))
    ts = [t for t in multi_args(w, I, c, 'func_common_args')]
    if ts[-1] == '':
        ts = ts[:-1]
    r = w.apply(fn, [w.parsed(key_of(t), True) for t in ts])
    e = exponent(w, c)
    return r if e is None else w.power(r, e)


def unit_func_user(u, part):
    conv(u, 'convert_func', 'func', denotes(spec_user), matrices=False,
         restrict={'func': head('atom_expr_no_supexpr', lambda a: count(a, 'L_LEFT') == count(a, 'R_RIGHT') == 0)})


def bounds(w, c):
    """The bounds of an integral, or None."""
    if not c.n('subexpr'):
        return None
    s = c.child('subexpr')
    if s.n('args'):
        return 'skip'
    return w.den(s.child('atom') if s.n('atom') else s.child('expr')), supexpr_val(w, c)


def spec_integral(w, I, c):
    f = w.den(c.child('additive')) if c.n('additive') else w.den(c.child('frac')) if c.n('frac') else w.num(z3.RealVal(1))
    if f.kind != 'S':
        return None
    b = bounds(w, c)
    if b == 'skip':
        return None
    name = lambda t: TextV([Chunk('diffname(%s)' % w.text_of(t).key(), None, 1)])
    if c.n('DIFFERENTIAL'):
        x = w.symbol(name(c.child('DIFFERENTIAL')), True)
    else:
        ts = I.content(w.find_tokens([c, w.g.toknum['DIFFERENTIAL']]))
        has = [t for t in ts if I.choose(z3.Function('HAS', REAL, REAL, BOOL)(f.val, w.symbol(TextV(['d', name(t)]), True).val))]
        if len(has) > 1:
            return None
        if has:
            x = w.symbol(name(has[0]), True)
            f = EV('S', UFR('SUBS', f.val, w.symbol(TextV(['d', name(has[0])]), True).val, z3.RealVal(1)))
        else:
            x = w.symbol('x', True)
    if b is None:
        return EV('S', UFR('INTEGRAL1', f.val, x.val))
    return EV('S', UFR('INTEGRAL3', f.val, x.val, b[0].val, b[1].val))


def unit_integral(u, part):
    conv(u, 'convert_func', 'func', denotes(spec_integral), tag=' integral', matrices=False, restrict={'func': head('FUNC_INT')})


def spec_sqrt(w, I, c):
    d = c.label('base_d')
    if d is not None:
        b = w.num(z3.ToReal(z3.Int('INT:' + w.tok_text(d).key())))
    else:
        b = w.den(c.label('base'))
    if b.kind != 'S':
        return None
    if c.label('root') is not None:
        return EV('S', mk_pow(b.val, mk_pow(w.den(c.label('root')).val, z3.RealVal(-1))))
    return EV('S', mk_pow(b.val, z3.RealVal('1/2')))


def unit_sqrt(u, part):
    conv(u, 'convert_func', 'func', denotes(spec_sqrt), tag=' root', matrices=False, restrict={'func': head('FUNC_SQRT')})


def spec_sum(w, I, c):
    f = w.den(c.child('mp'))
    q = c.child('subeq').child('equality')
    i, a = w.den(q.child('expr', 0)), w.den(q.child('expr', 1))
    if not f.kind == i.kind == a.kind == 'S':
        return None
    return EV('S', UFR('SUM3' if c.n('FUNC_SUM') else 'PRODUCT3', f.val, i.val, a.val, supexpr_val(w, c).val))


def unit_sum(u, part):
    conv(u, 'convert_func', 'func', denotes(spec_sum), tag=' sum or product', matrices=False, restrict={'func': head(('FUNC_SUM', 'FUNC_PROD'))})


def unit_limit(u, part):
    def spec(w, I, c, kind, v):
        s = c.child('limit_sub')
        x = w.symbol(TextV([atom_name(w, I, s)]), True)
        a, f = w.den(s.child('expr')), w.den(c.child('mp'))
        if kind == 'raise':
            return [('does not raise (%s)' % v.why, False)]
        L = lambda d: EV('S', UFR('LIMIT' + d, f.val, x.val, a.val))
        if s.n('SUB'):
            g = eq_ev(w, v, L('-'))
        elif s.n('ADD'):
            g = eq_ev(w, v, L('+'))
        else:
            g = bor(zb(eq_ev(w, v, L('+'))), zb(eq_ev(w, v, L('+-'))))
        return [('is the limit written', g)]
    conv(u, 'convert_func', 'func', spec, tag=' limit', matrices=False, restrict={'func': head('FUNC_LIM')})


def unit_exp_e(u, part):
    def get(w, I, c):
        return EV('S', mk_pow(z3.Real('E'), supexpr_val(w, c).val if c.n('supexpr') else z3.RealVal(1)))
    conv(u, 'convert_func', 'func', denotes(get), tag=' e', matrices=False, restrict={'func': head('EXP_E')})


# ---------------------------------------------------------------- matrices

def digits_only(c):
    """The number of a row or column: plain digits."""
    t = c.w.text_of(c)
    return len(t.pieces) == 1


def row_number(w, a):
    return z3.simplify(z3.Int('INT:' + w.text_of(a.child('number')).key()) - 1)


def scale_of(w, I, s):
    """The factor written before a row or column; 'skip' for a matrix."""
    if s.n('expr'):
        k = w.den(s.child('expr'))
    elif s.n('group'):
        k = w.den(s.child('group'))
    else:
        return z3.RealVal(1) if s.n('ADD') else z3.RealVal(-1)
    return k.val if k.kind == 'S' else 'skip'


def opatom(which, m, **parts):
    fix = lambda v: v if isinstance(v, str) else z3.simplify(v)
    return EV('M', patom(which, Frozen(m), tuple((k, fix(v)) for k, v in sorted(parts.items()))))


def spec_transform(w, I, c, kind, v, m):
    letter = lambda a: w.tok_text(a.child('LETTER_NO_E').tok)
    if c.n('transform_swap'):
        s = c.child('transform_swap')
        a, b = s.child('transform_atom', 0), s.child('transform_atom', 1)
        k = None
    elif c.n('transform_scale'):
        s = c.child('transform_scale')
        a, b, k = s.child('transform_atom'), None, scale_of(w, I, s)
    else:
        s = c.child('transform_assignment')
        a, b, k = s.child('transform_atom'), s.child('transform_scale').child('transform_atom'), scale_of(w, I, s.child('transform_scale'))
    if isinstance(k, str) or not digits_only(a.child('number')) or b is not None and not digits_only(b.child('number')):
        return None
    la = letter(a)
    if b is not None and not I.choose(zb(I.eq(la, letter(b)))):
        return [('a row is not combined with a column', kind == 'raise')]
    row = I.choose(zb(I.eq(la, 'r')))
    if not row and not I.choose(zb(I.eq(la, 'c'))):
        return [('neither a row nor a column', kind == 'raise')]
    if kind == 'raise':
        return [('does not raise (%s)' % v.why, False)]
    which, r = ('ROWOP', 'row') if row else ('COLOP', 'col')
    if c.n('transform_swap'):
        forms = [opatom(which, m, op='n<->m', **{r + '1': row_number(w, x), r + '2': row_number(w, y)}) for x, y in ((a, b), (b, a))]
    elif b is None:
        forms = [opatom(which, m, op='n->kn', k=k, **{r: row_number(w, a)})]
    else:
        forms = [opatom(which, m, op='n->n+km', k=k, **{r + '1': row_number(w, a), r + '2': row_number(w, b)})]
    return [('is the elementary transformation written', bor(*[zb(eq_ev(w, v, f)) for f in forms]))]


def unit_transform(u, part):
    """r_i <-> r_j, k r_i, r_i + k r_j and the same for columns, on any matrix."""
    m = {}

    def call(w, I, f, c):
        m['in'] = EV('M', patom('A'), None, 'A', True)
        return I.call_func(f, [m['in'], c], {}, use_contract=False)
    conv(u, 'convert_elementary_transform', 'elementary_transform', lambda w, I, c, kind, v: spec_transform(w, I, c, kind, v, m['in'].val), mode='S', call=call)


def transformed(w, p, ts):
    for t in ts:
        p = patom('TR', Frozen(w.pnorm(p)), t.name)
    return p


def unit_matrix(u, part):
    """Matrices and determinants of every shape up to 3 by 3, with up to two transformations above and below the arrow."""
    def spec(rule):
        def get(w, I, c):
            rows = [c.child('matrix_row', i) for i in range(c.n('matrix_row'))]
            ent = [[w.den(r.child('expr', j)) for j in range(r.n('expr'))] for r in rows]
            if len(set(map(len, ent))) != 1:
                return None
            p = patom('MATRIX', tuple(tuple(z3.simplify(x.val) for x in r) for r in ent))
            if rule == 'matrix':
                n = c.n('elementary_transforms')
                for k in reversed(range(n)):           # \xrightarrow[below]{above}: the one above is written last and applied first
                    g = c.child('elementary_transforms', k)
                    p = transformed(w, p, [g.child('elementary_transform', j) for j in range(g.n('elementary_transform'))])
            return EV('M', p)
        return get
    for rule in ('matrix', 'det'):
        def prep(w):
            def contract(g, args, kw, orig=w.func_override):
                if g.name == 'convert_elementary_transform' and g.module.name == M:
                    env, names = w.I.bind(g, args, kw)
                    m, t = [env[x] for x in names[:2]]
                    if isinstance(m, EV) and m.kind == 'M' and isinstance(t, CtxV):
                        w.used(g.qual)
                        return EV('M', transformed(w, m.val, [t]), None, None, True)
                return orig(g, args, kw)
            w.func_override = contract
            w.raw_rowop = 'raw'
        conv(u, 'convert_matrix', rule, denotes(spec(rule)), tag=' of ' + rule, mode='S', prepare=prep, limit=20000,
             restrict={'elementary_transforms': lambda a: count(a, 'elementary_transform') <= 2})


def unit_matrix_any(u, part):
    """The entries of a matrix with any number of rows and columns."""
    w = TexWorld(REPO, 'S')
    I = u.interp(w)
    f = u.func_value(I, L2 + 'convert_matrix')
    n = z3.Int('rows')
    m = z3.Function('columns', INT, INT)
    ENT = z3.Function('entry', INT, INT, REAL)
    st = {}

    class Row(CtxV):
        pass

    def row(i):
        r = CtxV(w, 'matrix_row', 'row[%s]' % z3.simplify(rv(i)))
        r.index = rv(i)
        return r

    def expr(i, j):
        e = CtxV(w, 'expr', 'entry[%s,%s]' % (z3.simplify(i), z3.simplify(rv(j))))
        e.ev = EV('S', ENT(i, rv(j)), None, 'entry[%s,%s]' % (z3.simplify(i), z3.simplify(rv(j))))
        return e
    orig = w.accessor

    def accessor(c, what, target, multi):
        if c.rule == 'det' and target == 'matrix_row':
            return HookV(lambda I, a, k: SeqV('list', n, row) if not a else row(a[0]), 'rows')
        if c.rule == 'matrix_row' and hasattr(c, 'index') and target == 'expr':
            return HookV(lambda I, a, k: SeqV('list', m(c.index), lambda j: expr(c.index, j)) if not a else expr(c.index, a[0]), 'entries')
        return orig(c, what, target, multi)
    w.accessor = accessor

    def whole(rows):
        st['rows'] = rows
        return EV('M', patom('whole'), None, None, True)
    w.matrix_of = whole
    q = z3.Int('q')

    def go():
        w.msub, w.junk = {}, 0
        st.clear()
        I.assume(n >= 1)
        I.assume(z3.ForAll([q], m(q) >= 1))
        c = CtxV(w, 'det', 'c')
        c.open = True
        try:
            v = I.call_func(f, [c], {}, use_contract=False)
        except PyExc as e:
            return [('does not raise (%s)' % e.exc.why, False)]
        rows = st.get('rows')
        if rows is None or not isinstance(v, EV) or v.val.keys() != {('whole',)}:
            I.taint('a matrix built in another way')
            return [('is built from its rows', False)]
        i, j = z3.Int('some row'), z3.Int('some column')
        I.assume(z3.And(i >= 0, i < n, j >= 0, j < m(i)))
        s = I.as_seq(rows)
        r = I.as_seq(s.get(i))
        x = w.to_ev(r.get(j))
        return [('as many rows as written', s.n == n), ('as many columns as written in each row', r.n == m(i)),
                ('the entry written at each row and column', x is not None and x.kind == 'S' and x.val == ENT(i, j))]
    rs = I.explore(go)
    u.paths += len(rs)
    for k, r in enumerate(rs):
        for name, g in r.value:
            u.prove('convert_matrix, any size, path %d: %s' % (k, name), r.pc, g, imprecise=bool(r.taint))
    u.discharge_side(I)


# ---------------------------------------------------------------- named matrix operators

MATOPS = {'FUNC_DET': 'det', 'FUNC_RANK_NAME': 'rank', 'FUNC_TRACE_NAME': 'trace', 'FUNC_NORM_NAME': 'norm', 'FUNC_RREF_NAME': 'rref', 'FUNC_NULLSPACE_NAME': 'nullspace',
          'FUNC_DIAGONALIZE_NAME': 'diagonalize', 'FUNC_EIGENVALS_NAME': 'eigenvals', 'FUNC_EIGENVECTORS_NAME': 'eigenvects', 'FUNC_SVD_NAME': 'singular_value_decomposition',
          'FUNC_COLS_NAME': 'cols', 'FUNC_ROWS_NAME': 'rows', 'FUNC_EYE_NAME': 'eye'}


def same_app(w, v, name, key):
    return isinstance(v, AppV) and v.name == name and len(v.args) == 1 and isinstance(v.args[0], dict) and v.args[0] == key


def lines_of(w, I, v, a, what):
    """v is the list of the columns (rows) of matrix a, in order."""
    key = Frozen(w.pnorm(a.val))
    try:
        s = I.as_seq(v)
    except Unsupported:
        return False
    n = z3.Int('%s(%s)' % (what, pkey(key)))
    i = z3.Int('some line')
    I.assume(z3.And(i >= 0, i < s.n))
    x = s.get(i)
    if not (isinstance(x, EV) and x.kind == 'M'):
        return False
    # the word of the line itself, from the index it was asked for
    want = patom(what[:-1], key, i)
    p = w.pnorm(x.val)
    if len(p) != 1 or len(list(p)[0]) != 1:
        return False
    g = list(p)[0][0]
    if not (isinstance(g, tuple) and g[0] == what[:-1] and g[1] == key and is_z3(g[2])):
        return False
    return z3.And(s.n == n, g[2] == i)


def unit_matrix_operators(u, part):
    """\\det, \\operatorname{rank}, trace, norm, rref, nullspace, eigen.., svd, rows, cols of a matrix; eye of a number."""
    def spec(w, I, c, kind, v):
        tok, _ = fname_token(w, c, 'func_normal_single_arg')
        op = MATOPS[tok]
        a = single_arg(w, c)
        if (a.kind == 'S') != (op == 'eye'):
            return None
        if kind == 'raise':
            return [('does not raise (%s)' % v.why, False)]
        if op == 'eye':
            e = v.args[0] if isinstance(v, AppV) and v.name == 'eye' and len(v.args) == 1 else None
            return [('is the identity matrix of that size', isinstance(e, EV) and eq_ev(w, e, a))]
        key = Frozen(w.pnorm(a.val))
        if op in ('det', 'rank', 'trace', 'norm'):
            return [('is the %s of the operand' % op, eq_ev(w, v, EV('S', z3.Real('%s(%s)' % (op, pkey(key))))))]
        if op == 'rref':
            return [('is the row reduced form of the operand', eq_ev(w, v, EV('M', patom('rref', key))))]
        if op in ('cols', 'rows'):
            return [('is the list of the %s of the operand, in order' % op, lines_of(w, I, v, a, op))]
        return [('is the %s of the operand' % op, same_app(w, v, op, key))]
    conv(u, 'convert_func', 'func', spec, tag=' matrix operator', mode='M',
         restrict={'func': head('func_normal_single_arg', single_ok, lambda a: count(a, 'subexpr') == 0 and count(a, 'supexpr') == 0),
                   'func_normal_functions_single_arg': names(*MATOPS), 'func_operator_names_single_arg': names(*MATOPS)}, limit=20000)


MATMULTI = {'FUNC_ZEROS_NAME': 'zeros', 'FUNC_ONES_NAME': 'ones', 'FUNC_DIAG_NAME': 'diag', 'FUNC_HSTACK_NAME': 'hstack', 'FUNC_VSTACK_NAME': 'vstack',
            'FUNC_ORTHOGONALIZE_NAME': 'orth'}


def unit_matrix_multi(u, part):
    """zeros, ones, diag, hstack, vstack, orthogonalize of the written arguments in the written order."""
    def spec(w, I, c, kind, v):
        tok, _ = fname_token(w, c, 'func_normal_multi_arg')
        op = MATMULTI[tok]
        rule = 'func_multi_arg' if c.n('func_multi_arg') else 'func_multi_arg_noparens'
        xs = [w.parsed(key_of(t), True) for t in multi_args(w, I, c, rule)]
        want = {'zeros': 'S', 'ones': 'S', 'hstack': 'M', 'vstack': 'M', 'orth': 'M'}.get(op)
        if want and any(x.kind != want for x in xs):
            return None
        if kind == 'raise':
            return [('does not raise (%s)' % v.why, False)]
        if op == 'orth':
            if not (isinstance(v, AppV) and v.name == 'GramSchmidt' and len(v.args) == 2 and v.args[1] in (True, (('orthonormal', True),))):
                return [('is the orthonormalisation', False)]
            got = v.args[0]
            if len(xs) == 1:
                return [('of the columns of the operand', lines_of(w, I, got, xs[0], 'cols'))]
            return [('of the operands', isinstance(got, tuple) and len(got) == len(xs) and band(*[zb(eq_ev(w, x, y)) for x, y in zip(got, xs)]))]
        return [('is the %s of the operands' % op, isinstance(v, AppV) and v.name == op and len(v.args) == len(xs) and band(*[zb(eq_ev(w, x, y)) for x, y in zip(v.args, xs)]))]

    def prep(w):
        w.parse_matrix = True
    conv(u, 'convert_func', 'func', spec, tag=' matrix operator', mode='M', prepare=prep,
         restrict={'func': head('func_normal_multi_arg', single_ok, lambda a: count(a, 'subexpr') == 0 and count(a, 'supexpr') == 0),
                   'func_normal_functions_multi_arg': names(*MATMULTI), 'func_operator_names_multi_arg': names(*MATMULTI)}, limit=20000)
