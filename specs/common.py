"""Shared pieces of the contracts of the comparison layer."""
import z3

from pyvc.values import *
from pyvc import engine as E
from pyvc.engine import rv, zb, band, bor, bnot
from pyvc.world import World

EV = 'math_evaluation.core.evaluations:'
NO = 'math_evaluation.core.latex_normalize:'
LP = 'math_evaluation.core.latex_parser:'
TY = 'math_evaluation.core.type_evaluations:'
L2 = 'latex2sympy.latex2sympy2:'

TYPES = dict(CPLX='complex', VEC='vector', SET='set', MAT='matrix', FUNC='function', EQUL='equation', EXPR='expression', INEQ='inequality',
             OTHS='others')


class C:
    """A contract given by the function that a caller sees."""
    def __init__(self, f):
        self.f = f

    def call(self, I, env, names):
        return self.f(I, env)


def UF(name, *sorts):
    return z3.Function(name, *sorts)


def isstr(I, v):
    return I.kind_of(v) == 'str'


class CmpWorld(World):
    def __init__(self):
        World.__init__(self)
        self.assumed = set()

    # re.search with a pattern free of metacharacters is substring containment
    def ext(self, dotted, args, kw):
        I = self.I
        if dotted in ('re.search', 're.match', 're.fullmatch') and len(args) >= 2 and isinstance(args[0], str):
            pat, s = args[0], args[1]
            if s is None:
                I.raise_(TypeError)
            import re
            if re.escape(pat) == pat and dotted == 're.search' and not kw and len(args) == 2:
                if I.choose(zb(I.contains(pat, s))):
                    return Ob(I.fresh(U, 'match'), 'match')
                return UNDEF
            return None
        if dotted.startswith('timeout_decorator.'):
            def wrap(I, f):
                def run(I, a, k):
                    I.may_raise('timeout')
                    return I.call(f, a, k)
                return HookV(run, 'timeout')
            self.assumed.add('timeout_decorator.timeout: runs the function or raises an Exception')
            return DecoratorV(wrap)
        return None

    def truth(self, v):
        if isinstance(v, Ob) and v.ty in ('match', 'interval'):
            return True
        return None


def bounded_sum(*a):
    raise NotImplementedError


def const_str(name):
    return Ob(z3.Const(name, U), 'str')


def truthy(I, v):
    return zb(I.truth(v))


def boolean_verdict(u, r, tag, what='returns a bool'):
    """The value returned on this path is a Python bool."""
    if r.kind == 'raise':
        return
    ok = E.is_bool(r.value)
    u.prove('%s: %s' % (tag, what), r.pc, ok, imprecise=bool(r.taint), info='value %r' % (r.value,))


def path_tag(i):
    return 'path %d' % i
