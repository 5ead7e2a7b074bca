"""P15 (and the entry of the parser for P13, P14, P20, P21): what one call leaves behind for the next.

The argument is an induction over the history: every function restores or writes only the declared settings, and what a call reads of the
other module variables it has written itself before.  So every module variable is arbitrary at entry here."""
import ast

from pyvc.unit import REPO
from .common import *
from .latex import conv, eq_ev
from .texworld import *
from pyvc import rx
from pyvc.text import TextV, Chunk

ENTRY = M + ':latex2sympy'
WRAP = 'math_evaluation.core.latex_normalize:latex2sympy'
GLYPHS = frozenset(chr(i) for i in range(32, 127)) | frozenset('√π∞∪∩·×°αβ\n\t')


class Part(Chunk):
    """A stretch of LaTeX: any characters, without the spellings that the entry of the parser rewrites."""
    SPELL = ('\\frac', '\\dfrac', '\\tfrac', '\\mathrm', '\\rm', '\\left[', '\\right]', ')_{', '\\displaystyle', '\\quad', '\\qquad', '\\,')

    def __init__(self, key, without='~$'):
        Chunk.__init__(self, key, GLYPHS - frozenset(without), 0, None)
        self.avoid = self.SPELL


class Plain(Chunk):
    """A stretch of formula that begins with no letter, without backslash: it cannot complete a command before it or begin one after it."""
    def __init__(self, key, alpha=frozenset('0123456789+-*/ xyzT')):
        Chunk.__init__(self, key, alpha, 1, None)


class Made:
    """An object of the ANTLR runtime: what it was made from."""
    def __init__(self, kind, of):
        self.kind, self.of = kind, of

    def sym_truth(self, I):
        return True

    def sym_u(self, I):
        return z3.Const('antlr:' + self.kind, U)


class GivenV:
    """The variable values given: an unknown dict."""
    def __init__(self, name):
        self.name = name

    def sym_u(self, I):
        return z3.Const('given:' + self.name, U)


def entries_of(I, v, log=None):
    """What an unknown dict holds now on this path: the name of the dict whose entries these are, 'empty', or a mixture ('merge', below, above)."""
    e = v.name
    for x in I.ex.log if log is None else log:
        if x[0] == 'entries' and x[1] == v.name:
            e = x[2]
    return e


def merged(below, above):
    return above if below == 'empty' else below if above in ('empty', below) else ('merge', below, above)


class EntryWorld(TexWorld):
    def __init__(self, root):
        TexWorld.__init__(self, root)
        self.assumed.add('the ANTLR runtime: PSParser(CommonTokenStream(PSLexer(InputStream(text)))).math() is the tree of text or raises')
        self.settings = {}
        self.nocontract.add('latex2sympy')
        self.pre = {}
        self.copies = 0

    def unassigned_global(self, mod, name):
        return self.old(name)

    def old(self, name):
        """The value some earlier call left in a module variable."""
        if name == 'is_real':
            return Ob(z3.Const('is_real', U), 'setting')
        if name == 'frac_type':
            return TextV([Chunk('old frac_type', GLYPHS, 1)])
        if name in ('variances', 'var', 'VARIABLE_VALUES'):
            return GivenV('old ' + name)
        if name in ('diff_op', 'partial_op'):
            return z3.Bool('old ' + name)
        return Ob(z3.Const('old:' + name, U))

    def module_global(self, mod, name):
        if mod == M and name in written(self.I.src):
            if name not in self.pre:
                self.pre[name] = self.old(name)
            return self.pre[name]
        return None

    def length(self, v):
        if isinstance(v, GivenV):
            return self.size(entries_of(self.I, v))
        return TexWorld.length(self, v)

    def size(self, e):
        if e == 'empty':
            return z3.IntVal(0)
        n = z3.Int('len:' + str(e))
        self.I.assume(n >= 0)
        if isinstance(e, tuple):
            a, b = self.size(e[1]), self.size(e[2])
            self.I.assume(z3.And(n >= a, n >= b, n <= a + b))
        return n

    def copied(self, e):
        self.copies += 1
        g = GivenV('copy %d' % self.copies)
        self.I.log('entries', g.name, e)
        return g

    def truth(self, v):
        if isinstance(v, GivenV):
            return self.length(v) > 0
        if isinstance(v, Made):
            return True
        return TexWorld.truth(self, v)

    def is_none(self, v):
        if isinstance(v, (GivenV, Made)):
            return False
        return TexWorld.is_none(self, v)

    def eq(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, GivenV) and isinstance(y, DictV) and not self.I.content(y):
                return self.length(x) == 0
        if isinstance(a, GivenV) and isinstance(b, GivenV) and entries_of(self.I, a) == entries_of(self.I, b):
            return True
        return TexWorld.eq(self, a, b)

    def builtin(self, name, args, kw):
        if name == 'dict' and len(args) == 1 and not kw and isinstance(args[0], GivenV):
            return self.copied(entries_of(self.I, args[0]))
        return TexWorld.builtin(self, name, args, kw)

    def construct(self, c, args, kw):
        if c.name == 'PSLexer' and len(args) == 1 and isinstance(args[0], Made) and args[0].kind == 'stream':
            return Made('lexer', args[0].of)
        if c.name == 'PSParser' and len(args) == 1 and isinstance(args[0], Made) and args[0].kind == 'tokens':
            return Made('parser', args[0].of)
        if c.name == 'MathErrorListener':
            return Made('listener', args)
        return TexWorld.construct(self, c, args, kw)

    def ext(self, dotted, args, kw):
        I = self.I
        last = dotted.rsplit('.', 1)[-1]
        if dotted == 're.compile':
            if all(isinstance(a, (str, int)) for a in args):
                return rx.PatV(rx.compile_pattern(args[0], rx.flag_value(args[1] if len(args) > 1 else kw.get('flags', 0))))
            raise Unsupported('re.compile of an unknown text')
        if dotted.startswith('re.'):
            r = rx.call_re(I, dotted[3:], args, kw)
            if r is not None:
                return r
        if last == 'InputStream' and len(args) == 1:
            return Made('stream', args[0])
        if last == 'CommonTokenStream' and len(args) == 1 and isinstance(args[0], Made) and args[0].kind == 'lexer':
            return Made('tokens', args[0].of)
        if last == 'PSLexer':
            return Made('lexer', args[0].of)
        if last == 'PSParser':
            return Made('parser', args[0].of)
        return TexWorld.ext(self, dotted, args, kw)

    def getattr(self, o, name):
        I = self.I
        if isinstance(o, GivenV):
            def update(I, a, k):
                x = a[0] if len(a) == 1 and not k else None
                if isinstance(x, GivenV):
                    above = entries_of(I, x)
                elif isinstance(x, DictV) and not I.content(x):
                    above = 'empty'
                else:
                    raise Unsupported('.update of given values')
                I.log('entries', o.name, merged(entries_of(I, o), above))
            if name == 'copy':
                return HookV(lambda I, a, k: self.copied(entries_of(I, o)), 'copy')
            if name == 'clear':
                return HookV(lambda I, a, k: I.log('entries', o.name, 'empty'), 'clear')
            if name == 'update':
                return HookV(update, 'update')
            raise Unsupported('.%s of given values' % name)
        if isinstance(o, Made):
            if name in ('removeErrorListeners', 'addErrorListener'):
                return HookV(lambda I, a, k: None, name)
            if name == 'math' and o.kind == 'parser':
                def math(I, a, k):
                    I.log('parse', o.of)
                    I.may_raise('syntax error', z3.Bool('syntax error'))
                    self.tree = CtxV(self, 'math', 'math')
                    self.tree.open = True
                    return self.tree
                return HookV(math, 'math')
            raise Unsupported('.%s of the %s' % (name, o.kind))
        return TexWorld.getattr(self, o, name)

    def func_override(self, f, args, kw):
        I = self.I
        if f.module.name == M and f.name in ('convert_relation', 'convert_expr') and args and isinstance(args[0], CtxV):
            m = I.src.get(M)
            I.log('state', {n: settled(I, m, n) for n in ('variances', 'var', 'VARIABLE_VALUES', 'is_real')})
            I.may_raise('conversion', z3.Bool('raises:' + args[0].name))
            self.used(f.qual)
            return self.den(args[0])
        return TexWorld.func_override(self, f, args, kw)


def written(src):
    """The variables of the module that functions assign."""
    m = src.get(M)
    return {x for n in ast.walk(m.tree) if isinstance(n, ast.Global) for x in n.names} | {'variances', 'var', 'VARIABLE_VALUES', 'is_real', 'frac_type'}


def settled(I, m, n):
    """The present value of a module variable (the value at entry when nothing assigned it)."""
    v = m.vars.get(n)
    if v is None or isinstance(v, tuple) and v and v[0] in ('lazy', 'from'):
        v = I.world.module_global(m.name, n)
    if isinstance(v, DictV):
        return ('dict', dict(I.content(v)))
    if isinstance(v, GivenV):
        e = entries_of(I, v)
        return ('dict', {}) if e == 'empty' else GivenV(e)
    return v


TEMPLATES = []


def template(part, name, before, after=None):
    TEMPLATES.append((part, name, before, before if after is None else after))


def _templates():
    A, B, C = Part('A'), Part('B'), Part('C')
    P, Q = Plain('P'), Plain('Q')
    any_ = ('P13', 'P14', 'P15', 'P20', 'P21')
    template(any_, 'a text without rewritten spellings', [A])
    template(('P13',), 'the other spellings of \\frac', [A, '\\dfrac{1}', P, '\\tfrac', '{2}', B], [A, '\\frac{1}', P, '\\frac', '{2}', B])
    template(('P13',), '\\frac', [A, '\\frac{', P, '}', B])
    template(('P13', 'P20'), '\\displaystyle', ['\\displaystyle{', A], [' {', A])
    template(('P13',), 'spaces', [P, '\\quad', Q, '~', B, '\\,{', C, '$'], [P, ' ', Q, ' ', B, ' {', C, ' '])
    template(('P13',), 'dollars', ['$', A, '$'], [' ', A, ' '])
    template(('P13',), 'permutations', ['(', P, ')_{', Q, '}'], ['\\frac{(', P, ')!}{((', P, ')-(', Q, '))!}'])
    template(('P14',), 'an upright d', ['\\frac{\\mathrm{d}', P, '}{\\mathrm{d}x}'], ['\\frac{d', P, '}{dx}'])
    template(('P14',), 'an upright d in an integral', ['\\int{', A, '}{\\rm d}x'], ['\\int{', A, '}dx'])
    template(('P20',), 'an upright T', ['{', A, '}^\\mathrm{T}', P], ['{', A, '}^T', P])
    template(('P20',), 'a matrix in square brackets', ['\\left[\\begin{matrix} ', A, ' \\end{matrix}\\right]'], ['\\begin{bmatrix} ', A, ' \\end{bmatrix}'])


_templates()


def same_text(I, a, b):
    """-> the condition under which two texts are equal, decided piece by piece"""
    if not isinstance(a, (str, TextV)):
        return False
    ka = a if isinstance(a, str) else a.key()
    kb = b if isinstance(b, str) else b.key()
    return ka == kb


def entries(u, part, k):
    """Every third written form, starting with the k-th one."""
    cases = [(t, given) for t in TEMPLATES if part in t[0] for given in ('values given', 'no values') if given == 'values given' or part in ('P21', 'P15')]
    for (names, name, before, after), given in cases[k::3]:
        u.attempt('%s, %s' % (name, given), lambda: entry(u, part, name, before, after, given))


def unit_entry(u, part):
    entries(u, part, 0)


def unit_entry_2(u, part):
    entries(u, part, 1)


def unit_entry_3(u, part):
    entries(u, part, 2)


def entry(u, part, name, before, after, given):
    w = EntryWorld(REPO)
    I = u.interp(w)
    f = u.func_value(I, ENTRY)
    G = GivenV('values')

    def go():
        w.pre = {}
        w.tree = None
        w.copies = 0
        text = TextV(list(before))
        v = I.call_func(f, [text] + ([G] if given == 'values given' else []), {}, use_contract=False)
        t = w.tree
        if t is None:
            return v, None, None
        rl = t.n('relation_list')
        if rl:
            c = t.child('relation_list').child('relation_list_content')
            want = [w.den(c.child('relation', i)) for i in range(c.n('relation'))]
        else:
            want = w.den(t.child('relation'))
        return v, want, [I.world.to_ev(x) if isinstance(x, EV) else x for x in (I.content(v) if isinstance(v, ListV) else [v])]
    rs = I.explore(go, want_snap=True)
    u.paths += len(rs)
    n = z3.Int('len:values')
    for i, r in enumerate(rs):
        tag = '%s, %s, path %d' % (name, given, i)
        imp = bool(r.taint)
        if r.kind == 'raise' and not any(x[0] == 'parse' for x in r.log):
            u.prove(tag + ': reaches the parser (%s)' % r.value.why, r.pc, False, imprecise=imp)
            continue
        pr = [x[1] for x in r.log if x[0] == 'parse']
        u.prove(tag + ': parses the text written', r.pc, len(pr) == 1 and same_text(I, pr[0], TextV(list(after))), imprecise=imp,
                info='parsed %s' % [p.key() if isinstance(p, TextV) else p for p in pr])
        for j, (_, st) in enumerate(x for x in r.log if x[0] == 'state'):
            vv = st['VARIABLE_VALUES']
            if part in ('P21', 'P15'):
                if isinstance(vv, GivenV):
                    ok = vv.name == G.name
                else:
                    ok = band(z3.BoolVal(isinstance(vv, tuple) and vv[0] == 'dict' and not vv[1]), zb(given == 'no values' or n == 0))
                u.prove(tag + ': conversion %d sees exactly the values given' % j, r.pc, ok, imprecise=imp, info=repr(vv))
            if part == 'P15':
                for s in ('is_real', 'variances', 'var'):
                    u.prove(tag + ': conversion %d sees the declared %s' % (j, s), r.pc, same_setting(w, s, st[s]), imprecise=imp, info=repr(st[s]))
        if part == 'P15':
            vs = dict(next(vs for m, vs in r.snap[2] if m.name == M))
            for s in ('is_real', 'variances', 'var'):
                x = vs.get(s)
                if isinstance(x, GivenV):
                    x = GivenV(entries_of(I, x, r.log))
                u.prove(tag + ': leaves %s as it was' % s, r.pc, x is None or isinstance(x, tuple) and x[:1] == ('lazy',) or same_setting(w, s, x), imprecise=imp, info=repr(x))
        if r.kind == 'raise':
            cause = z3.Or(z3.Bool('syntax error'), *[z3.Bool('raises:' + k) for k in raising(r)])
            u.prove(tag + ': raises only what the parser or a conversion raised (%s)' % r.value.why, r.pc, cause, imprecise=imp)
            continue
        v, want, got = r.value
        if want is None:
            u.prove(tag + ': is parsed', r.pc, False, imprecise=imp)
        elif isinstance(want, list):
            u.prove(tag + ': is the list of the relations, in order', r.pc,
                    band(z3.BoolVal(isinstance(v, ListV) and len(got) == len(want)), *[zb(isinstance(a, EV) and eq_ev(w, a, b)) for a, b in zip(got, want)]), imprecise=imp)
        else:
            u.prove(tag + ': is the relation', r.pc, isinstance(got[0], EV) and len(got) == 1 and not isinstance(v, ListV) and eq_ev(w, got[0], want), imprecise=imp)


def raising(r):
    out = set()
    todo = list(r.pc)
    while todo:
        e = todo.pop()
        if z3.is_const(e) and e.decl().name().startswith('raises:'):
            out.add(e.decl().name()[7:])
        todo += list(e.children())
    return sorted(out)


def same_setting(w, s, x):
    p = w.pre.get(s)
    if isinstance(x, GivenV):
        return x.name == 'old ' + s
    if isinstance(x, Ob):
        return bool(x.t.eq(z3.Const('is_real', U))) and s == 'is_real'
    return False


# ---------------------------------------------------------------- the wrapper used by the comparisons

class WrapWorld(EntryWorld):
    def func_override(self, f, args, kw):
        I = self.I
        if f.module.name == M and f.name == 'latex2sympy':
            m = I.src.get(M)
            I.log('call', {n: settled(I, m, n) for n in ('variances', 'var', 'is_real')}, list(args), dict(kw))
            self.used(f.qual)
            # the parse may declare symbols in the dicts it finds, and may fail
            for n in ('variances', 'var'):
                d = m.vars.get(n)
                if isinstance(d, DictV):
                    I.heap[d.id] = {'left behind': Ob(z3.Const('left behind', U))}
            I.may_raise('the parser', z3.Bool('parser raises'))
            return Ob(z3.Const('parsed', U))
        return EntryWorld.func_override(self, f, args, kw)


def unit_wrapper(u, part):
    w = WrapWorld(REPO)
    I = u.interp(w)
    f = u.func_value(I, WRAP)
    s = const_str('s')

    def go():
        w.pre = {}
        I.load_module(I.src.get(M))
        return I.call_func(f, [s], {}, use_contract=False)
    rs = I.explore(go, want_snap=True)
    u.paths += len(rs)
    for i, r in enumerate(rs):
        imp = bool(r.taint)
        calls = [x for x in r.log if x[0] == 'call']
        u.prove('path %d: parses the text, once' % i, r.pc, len(calls) == 1 and calls[0][2] == [s] and not calls[0][3], imprecise=imp)
        for c in calls:
            for n in ('variances', 'var'):
                v = c[1][n]
                u.prove('path %d: no declared %s is seen by the parse' % (i, n), r.pc, isinstance(v, tuple) and v[0] == 'dict' and not v[1], imprecise=imp, info=repr(v))
            u.prove('path %d: is_real is the setting' % i, r.pc, same_setting(w, 'is_real', c[1]['is_real']), imprecise=imp)
        vs = dict(next(vs for m, vs in r.snap[2] if m.name == M))
        for n in ('variances', 'var', 'is_real', 'VARIABLE_VALUES'):
            x = vs.get(n)
            if n == 'VARIABLE_VALUES':
                continue
            u.prove('path %d (%s): %s is left as it was' % (i, r.kind, n), r.pc,
                    x is None or isinstance(x, tuple) and x[:1] == ('lazy',) or same_setting(w, n, x), imprecise=imp, info=repr(x))
        if r.kind != 'raise':
            u.prove('path %d: the result is the parse' % i, r.pc, isinstance(r.value, Ob) and bool(r.value.t.eq(z3.Const('parsed', U))), imprecise=imp)
        else:
            u.prove('path %d: raises only when the parser does' % i, r.pc, z3.Bool('parser raises'), imprecise=imp)


# ---------------------------------------------------------------- what convert_frac reads it has written

def unit_frac_state(u, part):
    from .latex import frac_form

    def spec(w, I, c, kind, v):
        f = frac_form(w, I, c)
        if kind == 'raise':
            return [('does not raise whatever earlier parses left (%s)' % v.why, False)]
        if f[0] == 'op':
            l = I.content(v) if isinstance(v, ListV) else None
            return [('is d/dx whatever earlier parses left', isinstance(l, list) and len(l) == 1 and eq_ev(w, l[0], f[1]))]
        if f[0] == 'der':
            return [('is the derivative whatever earlier parses left', eq_ev(w, v, EV('S', UFR('DERIVATIVE', f[1].val, f[2].val))))]
        return [('is the quotient whatever earlier parses left', eq_ev(w, v, w.mul([f[1], w.power(f[2], -1)])))]

    def prep(w):
        base = type(w).module_global

        def mg(mod, name):
            if mod == M and name in written(w.I.src) and name not in w.settings and name not in ('is_real', 'frac_type'):
                return z3.Bool('old ' + name) if name.endswith('_op') else Ob(z3.Const('old:' + name, U))
            return base(w, mod, name)
        w.module_global = mg
        w.unassigned_global = lambda mod, name: mg(mod, name)
    conv(u, 'convert_frac', 'frac', spec, prepare=prep)


# ---------------------------------------------------------------- frames: who may assign what

MUTATORS = {'append', 'add', 'update', 'extend', 'pop', 'popitem', 'setdefault', 'clear', 'insert', 'remove', 'discard', 'sort', 'reverse', '__setitem__', '__delitem__',
            'intersection_update', 'difference_update', 'symmetric_difference_update', 'appendleft', 'popleft', 'seed', 'setstate'}
CORE = 'math_evaluation.core.'
CONE = [CORE + x for x in ('evaluations', 'type_evaluations', 'latex_parser', 'latex_normalize', 'constants')] + [M]
# the declared frames; every other function of the cone assigns nothing that outlives its call
FRAME = {
    (M, 'set_real'): {(M, 'is_real')},
    (M, 'set_variances'): {(M, 'variances'), (M, 'var')},
    (M, 'latex2sympy'): {(M, 'frac_type'), (M, 'VARIABLE_VALUES')},
    (M, 'convert_frac'): {(M, 'diff_op'), (M, 'partial_op')},
    (M, 'convert_relation'): {(M, 'variances'), (M, 'var')},          # A \in R^{m*n}: the declaration itself
    (M, 'convert_atom'): {(M, 'variances'), (M, 'var')},              # a declared symbol met again
    (CORE + 'latex_normalize', 'latex2sympy'): {(M, 'variances'), (M, 'var')},
}
SETTERS = {(M, 'set_real'), (M, 'set_variances')}
CALLS_OK = {((CORE + 'latex_normalize', 'latex2sympy'), (M, 'set_variances')), ((CORE + 'latex_normalize', 'latex2sympy'), (M, 'latex2sympy'))}


class Effects:
    """What the functions of a module may change that outlives a call, read off the source."""
    def __init__(self, src):
        self.src = src
        self.mods = {}
        todo = list(CONE)
        while todo:
            n = todo.pop()
            m = src.get(n)
            if m is None or n in self.mods or '.gen.' in n or '.tests' in n:
                continue
            self.mods[n] = m
        self.names = {n: self.top(m) for n, m in self.mods.items()}
        self.imports = {n: self.imported(n, m) for n, m in self.mods.items()}
        self.funcs = {}
        for n, m in self.mods.items():
            for f in ast.walk(m.tree):
                if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                    self.funcs[(n, getattr(f, 'name', '<lambda>'), f.lineno)] = f
        self.changes = {}

    def top(self, m):
        out = set()
        for st in m.tree.body:
            for s in ast.walk(st) if isinstance(st, (ast.Try, ast.If)) else [st]:
                if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    out.add(s.name)
                elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                    for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                        out |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
        return out | {x for g in ast.walk(m.tree) if isinstance(g, ast.Global) for x in g.names}

    def imported(self, n, m):
        """local name -> the module or (module, name) it stands for"""
        out = {}
        for s in ast.walk(m.tree):
            if isinstance(s, ast.Import):
                for a in s.names:
                    out[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ''
                if s.level:
                    pkg = n.split('.')[:-s.level] if not m.path.endswith('__init__.py') else n.split('.')[:len(n.split('.')) - s.level + 1]
                    base = '.'.join(pkg + ([s.module] if s.module else []))
                for a in s.names:
                    if a.name == '*':
                        if base in self.mods:
                            for x in self.top(self.mods[base]):
                                out.setdefault(x, (base, x))
                    else:
                        out[a.asname or a.name] = (base, a.name)
        return out

    def resolve(self, n, e, local, alias):
        """The module-level object an expression denotes, or None."""
        if isinstance(e, ast.Name):
            if e.id in alias:
                return alias[e.id]
            if e.id in local:
                return None
            if e.id in self.names[n]:
                return (n, e.id)
            i = self.imports[n].get(e.id)
            return i if i is None or isinstance(i, tuple) else (i, None)
        if isinstance(e, ast.Attribute):
            b = self.resolve(n, e.value, local, alias)
            if b is None:
                return None
            if b[1] is None:
                return (b[0], e.attr)
            if b[0] + '.' + b[1] in self.mods:
                return (b[0] + '.' + b[1], e.attr)
            return b
        if isinstance(e, ast.Subscript):
            return self.resolve(n, e.value, local, alias)
        return None

    def of(self, key):
        """-> (set of (module, name) changed, set of (module, name) called, list of remarks)"""
        n, fname, _ = key
        f = self.funcs[key]
        body = f.body if isinstance(f.body, list) else [f.body]
        nodes, todo = [], list(body)
        while todo:
            x = todo.pop()
            nodes.append(x)
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                todo += [d for d in x.args.defaults + x.args.kw_defaults if d is not None]
                continue
            todo += list(ast.iter_child_nodes(x))
        glob = {x for g in nodes if isinstance(g, ast.Global) for x in g.names}
        params = {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs + [b for b in (f.args.vararg, f.args.kwarg) if b]}
        local = set(params)
        for x in nodes:
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                local.add(x.id)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                local.add(x.name)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                local.add(x.name)
        local -= glob
        alias = {}
        # a parameter with a mutable default is an object that outlives the call
        pos = f.args.posonlyargs + f.args.args
        for a, d in list(zip(pos[len(pos) - len(f.args.defaults):], f.args.defaults)) + [(a, d) for a, d in zip(f.args.kwonlyargs, f.args.kw_defaults) if d is not None]:
            if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call, ast.ListComp, ast.DictComp, ast.SetComp)):
                alias[a.arg] = (n, 'default of %s.%s' % (fname, a.arg))
            elif isinstance(d, (ast.Name, ast.Attribute)):
                r = self.resolve(n, d, set(), {})
                if r is not None:
                    alias[a.arg] = r
        for x in nodes:
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and isinstance(x.value, (ast.Name, ast.Attribute, ast.Subscript)) \
                    and x.targets[0].id in local:
                r = self.resolve(n, x.value, local, {k: v for k, v in alias.items() if k in params})
                if r is not None and r[1] is not None:
                    alias[x.targets[0].id] = r
        changed, called, remarks = set(), set(), []

        def target(t):
            if isinstance(t, ast.Name):
                if t.id in glob:
                    changed.add((n, t.id))
            elif isinstance(t, (ast.Subscript, ast.Attribute)):
                r = self.resolve(n, t if isinstance(t, ast.Attribute) else t.value, local, alias)
                if r is not None:
                    changed.add(r)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for e in t.elts:
                    target(e)
            elif isinstance(t, ast.Starred):
                target(t.value)
        for x in nodes:
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    target(t)
            elif isinstance(x, (ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr)):
                target(x.target)
                if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id in alias:
                    changed.add(alias[x.target.id])
            elif isinstance(x, ast.Delete):
                for t in x.targets:
                    target(t)
            elif isinstance(x, (ast.With,)):
                for i in x.items:
                    if i.optional_vars is not None:
                        target(i.optional_vars)
            elif isinstance(x, ast.Call):
                if isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
                    r = self.resolve(n, x.func.value, local, alias)
                    if r is not None:
                        changed.add(r if r[1] is not None else (r[0], x.func.attr + '()'))
                if isinstance(x.func, ast.Name) and x.func.id in ('setattr', 'delattr', 'exec', 'globals', 'vars') and x.func.id not in local:
                    remarks.append(x.func.id)
                r = self.resolve(n, x.func, local, alias)
                if r is not None and r[1] is not None:
                    called.add(r)
                    for i, a in enumerate(x.args):
                        o = self.resolve(n, a, local, alias) if isinstance(a, (ast.Name, ast.Attribute)) else None
                        if o is not None and o[1] is not None and i in self.mutated(r):
                            changed.add(o)
        if not isinstance(f, ast.Lambda):
            for d in f.decorator_list:
                t = ast.unparse(d)
                if 'cache' in t.lower() or 'memo' in t.lower():
                    remarks.append('decorator ' + t)
        nl = [x for x in nodes if isinstance(x, ast.Nonlocal)]
        return changed, called, remarks

    def mutated(self, q, seen=()):
        """The positions of the parameters that function q changes."""
        if q in seen:
            return set()
        if q not in self.changes:
            out = set()
            for key, f in self.funcs.items():
                if (key[0], key[1]) != q or isinstance(f, ast.Lambda):
                    continue
                ps = [a.arg for a in f.args.posonlyargs + f.args.args]
                for x in ast.walk(f):
                    ts = x.targets if isinstance(x, (ast.Assign, ast.Delete)) else [x.target] if isinstance(x, ast.AugAssign) else []
                    for t in ts:
                        while isinstance(t, (ast.Subscript, ast.Attribute)):
                            t = t.value
                            if isinstance(t, ast.Name) and t.id in ps:
                                out.add(ps.index(t.id))
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS and isinstance(x.func.value, ast.Name) and x.func.value.id in ps:
                        out.add(ps.index(x.func.value.id))
            self.changes[q] = out
        return self.changes[q]


def unit_frames(u, part):
    """Frame conditions: no function of the comparisons or the parser changes a module variable, a default argument or an object of another
    module, except for the declared settings; the setters of the declared settings are called by no function of the cone but the wrapper."""
    from pyvc import engine as E
    src = E.Source(REPO)
    ef = Effects(src)
    if M not in ef.mods or CORE + 'evaluations' not in ef.mods:
        raise Unsupported('modules moved')
    u.assumed.add('frames are read off the source: assignments, deletions, mutating method calls, default arguments and decorators of every function; '
                  'objects of sympy, ANTLR and the interpreter (their caches, the random generator) are not part of the state')
    for key in sorted(ef.funcs):
        n, fname, line = key
        changed, called, remarks = ef.of(key)
        ok = changed - FRAME.get((n, fname), set())
        u.prove('%s:%s assigns only its frame' % (n, fname), [], not ok and not remarks, imprecise=True, info='%s %s' % (sorted(map(str, ok)), remarks))
        bad = {c for c in called if (c in SETTERS or c == (M, 'latex2sympy') and n != M) and ((n, fname), c) not in CALLS_OK}
        u.prove('%s:%s declares nothing' % (n, fname), [], not bad, imprecise=True, info=str(sorted(bad)))
