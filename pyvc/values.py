"""Value representation of the symbolic interpreter.

Concrete Python values (None, bool, int, float, str, bytes, tuple) stand for themselves; a z3 Bool/Int/Real term stands
for a Python bool/int/float of unknown value; everything else is one of the classes below.
"""
import z3

U = z3.DeclareSort('U')          # the universe of Python objects that are only known by name
INT, REAL, BOOL = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class Unsupported(BaseException):
    """The code uses something outside the verified subset."""


class PathEnd(BaseException):
    """The current path is infeasible or finished."""


class PyExc(BaseException):
    """A Python exception raised by the interpreted program."""
    def __init__(self, exc):
        self.exc = exc


class RetSig(BaseException):
    def __init__(self, value):
        self.value = value


class BreakSig(BaseException):
    pass


class ContSig(BaseException):
    pass


class ExcV:
    """An exception instance.  cls is a Python exception class or None (an unknown subclass of Exception)."""
    def __init__(self, cls=None, args=(), why=''):
        self.cls, self.args, self.why = cls, args, why

    def __repr__(self):
        return 'ExcV(%s,%s)' % (self.cls.__name__ if self.cls else '?', self.why)


class Ob:
    """An object known by a z3 term of sort U.  ty: what is known of its Python type ('str', 'expr', ... or None)."""
    __slots__ = ('t', 'ty')

    def __init__(self, t, ty=None):
        self.t, self.ty = t, ty

    def __repr__(self):
        return 'Ob<%s:%s>' % (self.t, self.ty)


class SeqV:
    """A sequence of unknown length: immutable.  kind in list/tuple/set/str/iter.  get maps a z3 Int to a value."""
    __slots__ = ('kind', 'n', 'get', 'u', 'ln')

    def __init__(self, kind, n, get, u=None, ln=None):
        # ln: the number of distinct elements of a set when it differs from the number of items listed
        self.kind, self.n, self.get, self.u, self.ln = kind, n, get, u, ln

    def __repr__(self):
        return 'SeqV<%s,len=%s>' % (self.kind, self.n)


class ListV:
    """A mutable list; its content (a Python list of values or a SeqV) is in the heap."""
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return 'ListV<%s>' % self.id


class SetV:
    """A set of concretely many values (elements may be symbolic, duplicates possible)."""
    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return 'SetV<%s>' % (self.items,)


class DictV:
    """A mutable dict with concrete keys; the content is in the heap."""
    def __init__(self, id):
        self.id = id


class FuncV:
    def __init__(self, node, module, closure, name, defaults, kwdefaults, qual):
        self.node, self.module, self.closure, self.name = node, module, closure, name
        self.defaults, self.kwdefaults, self.qual = defaults, kwdefaults, qual

    def __repr__(self):
        return 'FuncV<%s>' % self.qual


class ClassV:
    def __init__(self, name, bases, module):
        self.name, self.bases, self.module = name, bases, module


class ExtV:
    """A name of a module outside the verified source, e.g. ExtV('sympy.simplify')."""
    def __init__(self, dotted):
        self.dotted = dotted

    def __repr__(self):
        return 'ExtV<%s>' % self.dotted


class ModV:
    def __init__(self, mod):
        self.mod = mod


class BuiltinV:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'BuiltinV<%s>' % self.name


class PartialV:
    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class MethV:
    """A bound method: receiver and method name."""
    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class DecoratorV:
    """A decorator object; wrap(I, fn) gives the wrapped callable."""
    def __init__(self, wrap):
        self.wrap = wrap


class HookV:
    """A callable given by a specification: fn(I, args, kw)."""
    def __init__(self, fn, name='hook'):
        self.fn, self.name = fn, name


class StarSeq:
    """An argument *seq of unknown length in a call."""
    def __init__(self, seq):
        self.seq = seq


class Poison:
    def __init__(self, why):
        self.why = why
        self.resolve = None


class _Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = _Undef()


def is_z3(v):
    return isinstance(v, z3.ExprRef)


def is_bool(v):
    return isinstance(v, bool) or isinstance(v, z3.BoolRef)


def is_int(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (isinstance(v, z3.ArithRef) and v.is_int())


def is_real(v):
    return isinstance(v, float) or (isinstance(v, z3.ArithRef) and v.is_real())


def is_num(v):
    return is_int(v) or is_real(v) or is_bool(v)
