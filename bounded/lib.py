"""Runtime oracle: executes the real code of /repo on concrete inputs.

This is the *bounded* companion of the proofs: it looks for concrete failing inputs (so that a refuted
obligation comes with a replay) and it validates on concrete inputs the contracts that the proofs assume
about code outside the verifier's reach (sympy, ANTLR, regular expressions).  It never counts as proof.

A case is a list [kind, params]; `run_case` returns None when the property holds on it, or a message."""
import contextlib
import importlib
import io
import math
import os
import random
import sys
from fractions import Fraction

REPO = os.environ.get('VERIF_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import warnings
warnings.simplefilter('ignore')


class Skip(Exception):
    """The entry point of this case does not exist (renamed helper): nothing is decided."""


WHERE = {
    'is_equiv': ['math_evaluation', 'math_evaluation.core.evaluations'],
    'is_equiv_type': ['math_evaluation', 'math_evaluation.core.type_evaluations'],
    'is_equiv_complex': ['math_evaluation.core.type_evaluations'],
    'are_equal_under_sympy': ['math_evaluation', 'math_evaluation.core.latex_parser'],
    'string_normalize': ['math_evaluation', 'math_evaluation.core.latex_normalize'],
    'split_tuple': ['math_evaluation.core.latex_normalize'],
    'split_matrix': ['math_evaluation.core.latex_normalize'],
    'latex2sympy': ['latex2sympy.latex2sympy2'],
    'is_equiv_MATH': ['demo'],
    'get_llm_type': ['math_evaluation.llms.llm_models', 'math_evaluation.llms'],
}
_cache = {}


def fn(name):
    if name not in _cache:
        for m in WHERE[name]:
            try:
                with quiet():
                    mod = importlib.import_module(m)
            except ImportError:
                continue
            if hasattr(mod, name):
                _cache[name] = getattr(mod, name)
                break
        else:
            raise Skip(name)
    return _cache[name]


def preload():
    for n in ('is_equiv', 'is_equiv_type', 'latex2sympy'):
        try:
            fn(n)
        except Skip:
            pass


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def call(name, *a, **k):
    f = fn(name)
    with quiet():
        return f(*a, **k)


def verdict(name, a, b, *rest):
    """The verdict, or a message starting with '!' when it is not one."""
    try:
        v = call(name, a, b, *rest)
    except Skip:
        raise
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
            raise
        return '!raised %s: %s' % (type(e).__name__, str(e)[:120])
    if type(v) is not bool:
        return '!returned %r of type %s, not a bool' % (v, type(v).__name__)
    return v


KINDS = {}


def kind(f):
    KINDS[f.__name__[2:]] = f
    return f


@kind
def k_eq(p):
    """fn(a, b, *rest) == expect"""
    random.seed(p.get('rs', 12345))
    v = verdict(p.get('fn', 'is_equiv'), p['a'], p['b'], *p.get('rest', []))
    if v is p['expect']:
        return None
    return '%s(%r, %r%s) gives %s, expected %s (%s)' % (p.get('fn', 'is_equiv'), p['a'], p['b'],
                                                       ''.join(', %r' % r for r in p.get('rest', [])), v, p['expect'], p.get('why', ''))


@kind
def k_total(p):
    """a bool comes back, whatever the input"""
    random.seed(p.get('rs', 12345))
    v = verdict(p.get('fn', 'is_equiv'), p['a'], p['b'], *p.get('rest', []))
    if isinstance(v, bool):
        return None
    return '%s(%r, %r%s): %s' % (p.get('fn', 'is_equiv'), p['a'], p['b'], ''.join(', %r' % r for r in p.get('rest', [])), v)


@kind
def k_anyof(p):
    v = verdict('is_equiv_MATH', p['gt'], p['b'])
    if v is p['expect']:
        return None
    return 'is_equiv_MATH(%r, %r) gives %s, expected %s (%s)' % (p['gt'], p['b'], v, p['expect'], p.get('why', ''))


EXCS = {'RuntimeError': RuntimeError, 'ValueError': ValueError, 'TypeError': TypeError, 'AttributeError': AttributeError,
        'ZeroDivisionError': ZeroDivisionError, 'RecursionError': RecursionError, 'NotImplementedError': NotImplementedError, 'KeyError': KeyError,
        'Exception': Exception}


def timeout_exc():
    try:
        import timeout_decorator
        return timeout_decorator.TimeoutError
    except Exception:
        return RuntimeError


@contextlib.contextmanager
def fault(where, exc):
    """Make one step of the symbolic machinery fail."""
    import sympy
    from sympy.core.expr import Expr
    from sympy.core.basic import Basic
    from sympy.core.evalf import EvalfMixin
    E = timeout_exc() if exc == 'timeout' else EXCS.get(exc)

    def boom(*a, **k):
        if exc == 'none':
            return None
        raise E('injected failure of %s' % where)
    targets = []

    def patch(o, n):
        if o is not None and hasattr(o, n):
            targets.append((o, n, o.__dict__.get(n, getattr(o, n)), n in getattr(o, '__dict__', {})))
    mods = [m for n, m in list(sys.modules.items()) if m is not None and (n.startswith('math_evaluation') or n.startswith('latex2sympy'))]
    if where == 'simplify':
        patch(sympy, 'simplify')
        for m in mods:
            patch(m, 'simplify')
    elif where == 'expand':
        patch(Expr, 'expand')
    elif where == 'evalf':
        patch(EvalfMixin, 'evalf')
        patch(sympy.Rational, 'evalf')
        patch(sympy.Expr, 'evalf')
    elif where == 'subs':
        patch(Basic, 'subs')
    elif where == 'latex2sympy':
        for m in mods:
            patch(m, 'latex2sympy')
    elif where == 'parse_latex':
        for m in mods:
            patch(m, 'parse_latex')
    elif where == 'parse_expr':
        import sympy.parsing.sympy_parser as sp
        patch(sp, 'parse_expr')
    elif where == 'abs':
        patch(Expr, '__abs__')
    elif where == 're':
        patch(sympy, 're')
        patch(sympy, 'im')
    elif where == 'sub':
        patch(Expr, '__sub__')
    elif where == 'Interval':
        patch(sympy, 'Interval')
    elif where == 'free_symbols':
        patch(Basic, 'free_symbols')
    seen = set()
    done = []
    try:
        for o, n, old, own in targets:
            if (id(o), n) in seen:
                continue
            seen.add((id(o), n))
            setattr(o, n, property(boom) if where == 'free_symbols' else boom)
            done.append((o, n, old, own))
        yield
    finally:
        for o, n, old, own in reversed(done):
            if own:
                setattr(o, n, old)
            else:
                delattr(o, n)


@kind
def k_fault(p):
    """With one step failing: a bool, and never True for answers that differ."""
    fn(p.get('fn', 'is_equiv'))
    random.seed(p.get('rs', 12345))
    clear_cache()
    try:
        with fault(p['where'], p['exc']):
            v = verdict(p.get('fn', 'is_equiv'), p['a'], p['b'], *p.get('rest', []))
    finally:
        clear_cache()
    if not isinstance(v, bool):
        return '%s(%r, %r%s) with %s failing (%s): %s' % (p.get('fn', 'is_equiv'), p['a'], p['b'], ''.join(', %r' % r for r in p.get('rest', [])),
                                                        p['where'], p['exc'], v)
    if p.get('reject') and v:
        return '%s(%r, %r) with %s failing (%s) accepts different answers' % (p.get('fn', 'is_equiv'), p['a'], p['b'], p['where'], p['exc'])
    return None


def clear_cache():
    from sympy.core.cache import clear_cache as c
    c()


# ------------------------------------------------------------------ values of parsed LaTeX
def points(names, n=3, seed=7):
    r = random.Random(seed)
    out = []
    for _ in range(n):
        out.append({s: Fraction(r.randint(2, 9)) + Fraction(r.randint(1, 6), 7) for s in names})
    return out


def num(v):
    import sympy
    v = sympy.sympify(v)
    v = v.doit() if hasattr(v, 'doit') else v
    c = complex(v.evalf(25))
    return c


def close(a, b, tol=1e-8):
    a, b = complex(a), complex(b)
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def l2s(tex, *a):
    try:
        return call('latex2sympy', tex, *a)
    except Skip:
        raise
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
            raise
        return '!raised %s: %s' % (type(e).__name__, str(e)[:160])


def at(expr, pt):
    import sympy
    sub = {s: sympy.Rational(pt[s.name].numerator, pt[s.name].denominator) for s in expr.free_symbols if s.name in pt}
    return expr.subs(sub)


def norm_readings(s):
    try:
        v = call('string_normalize', s)
    except Skip:
        raise
    except BaseException as e:
        return '!raised %s: %s' % (type(e).__name__, str(e)[:160])
    return v


def exact(s):
    """The exact rational value of a plain arithmetic text (digits . + - * / ^ ** ( ) { } \\frac \\pi)."""
    import ast
    import re
    t = s.replace(' ', '')
    t = re.sub(r'\\frac\{?(\d+)\}?\{?(\d+)\}?', r'((\1)/(\2))', t) if '\\frac{' not in t else re.sub(r'\\frac\{([^{}]*)\}\{([^{}]*)\}', r'((\1)/(\2))', t)
    t = re.sub(r'\^\{([^{}]*)\}', r'**(\1)', t).replace('^', '**').replace('\\pi', '(3141592653589793238/10**18)').replace('\\cdot', '*').replace('\\times', '*')
    t = t.replace('{', '(').replace('}', ')')
    t = re.sub(r'(?<![\d.])0+(?=\d)', '', t)
    t = re.sub(r'(\d)(\()', r'\1*\2', t)
    tree = ast.parse(t, mode='eval').body

    def ev(n):
        if isinstance(n, ast.Constant):
            return Fraction(str(ast.get_source_segment(t, n)))
        if isinstance(n, ast.UnaryOp):
            v = ev(n.operand)
            return -v if isinstance(n.op, ast.USub) else v
        if isinstance(n, ast.BinOp):
            a, b = ev(n.left), ev(n.right)
            o = type(n.op).__name__
            if o == 'Add':
                return a + b
            if o == 'Sub':
                return a - b
            if o == 'Mult':
                return a * b
            if o == 'Div':
                return a / b
            if o == 'Pow':
                if b.denominator != 1 or abs(b) > 4000:
                    raise ValueError('power')
                return a ** int(b)
        raise ValueError(ast.dump(n))
    return ev(tree)


@kind
def k_readings(p):
    """string_normalize(s) has exactly the given values as its readings (each exact, or within rel)."""
    v = norm_readings(p['s'])
    if isinstance(v, str) and v.startswith('!'):
        return 'string_normalize(%r) %s' % (p['s'], v)
    got = sorted(v) if isinstance(v, (set, frozenset, list, tuple)) else [v]
    if p.get('single') and isinstance(v, (set, frozenset)):
        return 'string_normalize(%r) gives several readings %r, expected one' % (p['s'], got)
    try:
        vals = [exact(g) for g in got]
    except Exception as e:
        return 'string_normalize(%r) gives %r, which is not a number (%s)' % (p['s'], got, e)
    want = [Fraction(w) for w in p['values']]
    rel = Fraction(p.get('rel', '0'))
    ok = lambda a, b: a == b or abs(a - b) <= rel * abs(b)
    rest = list(vals)
    for w in want:
        if not any(ok(r, w) for r in rest):
            return 'string_normalize(%r) gives %r: no reading with the value %s' % (p['s'], got, w)
    for r in rest:
        if not any(ok(r, w) for w in want):
            return 'string_normalize(%r) gives %r: unexpected reading %s' % (p['s'], got, r)
    return None


@kind
def k_norm(p):
    """string_normalize(s) is exactly one of the given texts (white space ignored) or sets of texts."""
    v = norm_readings(p['s'])
    sq = lambda t: t.replace(' ', '')
    g = sorted(map(sq, v)) if isinstance(v, (set, frozenset)) else sq(v) if isinstance(v, str) else v
    want = [sorted(map(sq, w)) if isinstance(w, list) else sq(w) for w in p['expect']]
    if g in want:
        return None
    return 'string_normalize(%r) gives %r, expected %r' % (p['s'], v, p['expect'])


@kind
def k_value(p):
    """latex2sympy(tex) has the given values at the points."""
    e = l2s(p['tex'], *p.get('rest', []))
    if isinstance(e, str):
        return 'latex2sympy(%r) %s' % (p['tex'], e)
    if isinstance(e, (list, tuple, dict)):
        return 'latex2sympy(%r) gives a %s %r' % (p['tex'], type(e).__name__, e)
    for pt, w in p['at']:
        q = {k: Fraction(v) for k, v in pt.items()}
        try:
            g = num(at(e, q))
        except Exception as ex:
            return 'latex2sympy(%r) = %s has no value at %s (%s)' % (p['tex'], e, pt, type(ex).__name__)
        w = complex(*w) if isinstance(w, (list, tuple)) else complex(float(Fraction(w)) if isinstance(w, str) else w)
        if not close(g, w, p.get('tol', 1e-8)):
            return 'latex2sympy(%r) = %s has value %s at %s, expected %s' % (p['tex'], e, g, pt, w)
    return None


def names():
    import sympy
    d = {k: getattr(sympy, k) for k in dir(sympy) if not k.startswith('_')}
    for c in 'abcfghijklmnopqrstuvwxyzABCDFGHJKLMPRTUVWXYZ':
        d[c] = sympy.Symbol(c)
    d['real'] = lambda n: sympy.Symbol(n)
    d['Sy'] = sympy.Symbol
    d['Fn'] = sympy.Function
    d['M'] = lambda *r: sympy.Matrix([list(x) for x in r])
    return d


def same_obj(g, w):
    import sympy
    if isinstance(w, (list, tuple)):
        return isinstance(g, (list, tuple)) and len(g) == len(w) and all(same_obj(x, y) for x, y in zip(g, w))
    if isinstance(w, dict):
        return isinstance(g, dict) and len(g) == len(w) and all(any(same_obj(k, k2) and same_obj(v, v2) for k2, v2 in g.items()) for k, v in w.items())
    if isinstance(g, (list, tuple, dict)):
        return False
    if g == w:
        return True
    if getattr(w, 'is_Matrix', False) or getattr(g, 'is_Matrix', False):
        if not (getattr(w, 'is_Matrix', False) and getattr(g, 'is_Matrix', False)):
            return False
        try:
            g2, w2 = sympy.Matrix(g.doit() if hasattr(g, 'doit') else g), sympy.Matrix(w.doit())
        except Exception:
            return False
        if g2.shape != w2.shape:
            return False
        return all(same_obj(g2[i, j], w2[i, j]) for i in range(g2.rows) for j in range(g2.cols))
    if isinstance(w, sympy.core.relational.Relational):
        return type(g) is type(w) and same_obj(g.lhs, w.lhs) and same_obj(g.rhs, w.rhs)
    for cls in (sympy.Integral, sympy.Sum, sympy.Product, sympy.Derivative, sympy.Limit):
        if isinstance(w, cls) or isinstance(g, cls):
            if not (isinstance(w, cls) and isinstance(g, cls)):
                break
            if len(g.args) != len(w.args):
                return False
            if cls in (sympy.Integral, sympy.Sum, sympy.Product):
                if len(g.limits) != len(w.limits) or any(len(x) != len(y) for x, y in zip(g.limits, w.limits)):
                    return False
                return same_obj(g.function, w.function) and all(same_obj(a, b) for x, y in zip(g.limits, w.limits) for a, b in zip(x, y))
            if cls is sympy.Derivative:
                return same_obj(g.expr, w.expr) and g.variables == w.variables
            return same_obj(g.args[0], w.args[0]) and same_obj(g.args[1], w.args[1]) and same_obj(g.args[2], w.args[2]) and str(g.args[3]) == str(w.args[3])
    try:
        free = g.free_symbols | w.free_symbols
    except Exception:
        return False
    # undefined functions: make them definite
    fs = g.atoms(sympy.core.function.AppliedUndef) | w.atoms(sympy.core.function.AppliedUndef)
    if fs:
        if {f.func for f in g.atoms(sympy.core.function.AppliedUndef)} != {f.func for f in w.atoms(sympy.core.function.AppliedUndef)}:
            return False
        for f in {f.func for f in fs}:
            h = sum(map(ord, str(f))) % 7 + 2
            rep = (lambda h: lambda *a: sum((i + h) * x ** (i + 2) for i, x in enumerate(a)) + h)(h)
            g, w = g.replace(f, rep), w.replace(f, rep)
    syms = sorted(free, key=str)
    for k in range(3):
        pt = {s: sympy.Rational(random.Random('%s%d' % (s, k)).randint(2, 9) * 7 + k + 1, 7) for s in syms}
        if k == 2:
            pt = {s: v / 29 for s, v in pt.items()}
        try:
            a, b = num(g.subs(pt)), num(w.subs(pt))
        except Exception:
            return False
        if a != a and b != b:
            continue
        if not close(a, b):
            return False
    return True


@kind
def k_object(p):
    """latex2sympy(tex) is the mathematical object written by the expression `want`."""
    e = l2s(p['tex'], *p.get('rest', []))
    if isinstance(e, str):
        return 'latex2sympy(%r) %s' % (p['tex'], e)
    w = eval(p['want'], names())
    if same_obj(e, w):
        return None
    return 'latex2sympy(%r) gives %s, expected %s' % (p['tex'], e, w)


@kind
def k_type(p):
    """A tri-state relation between types: general verdict and specialised verdicts."""
    v = verdict('is_equiv_type', p['a'], p['b'], *p.get('rest', []))
    if v is p['expect']:
        return None
    return 'is_equiv_type(%r, %r%s) gives %s, expected %s (%s)' % (p['a'], p['b'], ''.join(', %r' % r for r in p.get('rest', [])), v, p['expect'], p.get('why', ''))


def outcome(step):
    f, a = step
    try:
        v = call(f, *a)
        return repr(v) if f != 'latex2sympy' else '%s %r' % (type(v).__name__, v)
    except Skip:
        raise
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
            raise
        return '!' + type(e).__name__


FRESH = {}


@kind
def k_history(p):
    """A probe gives the same outcome after a history as in a fresh process."""
    import subprocess
    import json

    def run(hist, probes):
        r = subprocess.run([sys.executable, '-W', 'ignore', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'run.py'), '--outcome'],
                           input=json.dumps([hist, probes]), capture_output=True, text=True, timeout=300, env=dict(os.environ))
        if r.returncode:
            raise Skip('history')
        return json.loads(r.stdout)
    key = json.dumps(p['probes'])
    if key not in FRESH:
        FRESH[key] = run([], p['probes'])
    f, a = FRESH[key], run(p['history'], p['probes'])
    bad = [q for q, x, y in zip(p['probes'], f, a) if x != y and x is not None and y is not None]
    if bad:
        # only what happens again: a time limit inside the code is no difference
        f, a, g, b = run([], bad), run(p['history'], bad), run([], bad), run(p['history'], bad)
        for pr, x, y, x2, y2 in zip(bad, f, a, g, b):
            if x != y and x == x2 and y == y2 and x is not None and y is not None:
                return '%s%r gives %s in a fresh process and %s after %r' % (pr[0], tuple(pr[1]), x, y, p['history'])
    return None


@kind
def k_split(p):
    """split_tuple(s): the elements, or the text when there is only one."""
    try:
        v = call('split_tuple', p['s'])
    except Skip:
        raise
    except BaseException as e:
        v = '!raised %s' % type(e).__name__
    want = p['expect']
    if isinstance(want, str):
        ok = v == want
    elif p['kind'] == 'set':
        ok = isinstance(v, (set, frozenset)) and v == set(want)
    else:
        ok = type(v).__name__ == p['kind'] and list(v) == want
    return None if ok else 'split_tuple(%r) gives %r, expected the %s %r' % (p['s'], v, p['kind'], want)


@kind
def k_splitmat(p):
    try:
        v = call('split_matrix', p['s'])
    except Skip:
        raise
    except BaseException as e:
        v = '!raised %s' % type(e).__name__
    st = lambda x: [st(y) for y in x] if isinstance(x, list) else x.strip() if isinstance(x, str) else x
    return None if st(v) == p['expect'] else 'split_matrix(%r) gives %r, expected %r' % (p['s'], v, p['expect'])


class Fake(Exception):
    pass


@kind
def k_llm(p):
    """get_llm_type against a scripted model. script: list of replies; None = the call raises."""
    f = fn('get_llm_type')
    prompts = []
    script = p['script']
    odd = {'none': None, 'int': 5, 'empty': '', 'bytes': b'Type: x', 'list': ['Type: Set']}

    def model(messages, *a, **k):
        i = len(prompts)
        prompts.append(messages[-1]['content'])
        r = script[i] if i < len(script) else None
        if r is None:
            raise {0: Fake, 1: ValueError, 2: KeyError, 3: TimeoutError, 4: AttributeError}[i % 5]('down')
        return odd[r[0]] if isinstance(r, list) else r
    args = [model, p['question'], p['answer']] + p.get('pos', [])
    tag = 'get_llm_type(question %r, answer %r, %r, %r) with the replies %r' % (p['question'], p['answer'], p.get('pos', []), p.get('kw', {}), script)
    try:
        with quiet():
            v = f(*args, **p.get('kw', {}))
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
            raise
        return '%s raised %s: %s' % (tag, type(e).__name__, e)
    if v != p['expect'] or type(v) is not type(p['expect']):
        return '%s returns %r, expected %r' % (tag, v, p['expect'])
    if len(prompts) != p['calls']:
        return '%s calls the model %d times, expected %d' % (tag, len(prompts), p['calls'])
    for t in prompts:
        if p['question'] not in t:
            return '%s: the prompt does not carry the question' % tag
        w = p['wrapped']
        if w not in t or '$' + w in t or w + '$' in t:
            return '%s: the prompt does not carry the answer as %r' % (tag, w)
    return None


def run_case(c):
    k, p = c
    return KINDS[k](p)
