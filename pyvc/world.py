"""The default world: hooks a property's specification overrides, contracts, and the discharge of obligations."""
import time

import z3

from .values import *
from . import engine as E


def no_operator(op, a, b):
    """Does Python certainly raise TypeError for this operator between values of these kinds?"""
    num = ('int', 'float', 'bool')
    if 'NoneType' in (a, b):
        return True
    if op == 'Add':
        return a != b and not (a in num and b in num) or a == b and a in ('set', 'dict')
    if op == 'Sub':
        return not (a in num and b in num) and not a == b == 'set'
    if op == 'Mult':
        seq = ('str', 'list', 'tuple')
        return not (a in num and b in num) and not (a in seq and b in ('int', 'bool') or b in seq and a in ('int', 'bool'))
    if op in ('Div', 'FloorDiv', 'Pow'):
        return not (a in num and b in num)
    if op == 'Mod':
        return a != 'str' and not (a in num and b in num)
    if op in ('BitOr', 'BitAnd', 'BitXor'):
        return a != b and not (a in num and b in num)
    return False


class Contract:
    """Contract of a function.  call(I, env, names) is what a caller may assume (and must establish); it may fork and raise
    through I.  verify(I, fn) generates the obligations of the body."""
    trusted = False

    def __init__(self, qual):
        self.qual = qual

    def call(self, I, env, names):
        raise NotImplementedError

    def verify(self, I, fn):
        raise NotImplementedError


class World:
    qf = False          # decide the feasibility of paths without quantified facts
    det = False         # fresh names are numbered per path (no symbol may be kept from one path to another by this world)

    def __init__(self):
        from .text import TextV
        TextV.STRICT = False
        self.contracts = {}
        self.calls_used = set()
        self.I = None

    def background(self):
        return []

    # every hook returns None for "no opinion" (UNDEF stands for the value None)
    def truth(self, v): return None
    def eq(self, a, b): return None
    def is_none(self, v): return None

    def unpack(self, v, n):
        I = self.I
        I.may_raise('unpack', unsure=True)
        return [Ob(I.uf('item', U, INT, U)(v.t, z3.IntVal(i))) for i in range(n)]

    def module_global(self, mod, name): return None
    def unassigned_global(self, mod, name):
        self.I.raise_(NameError, name)
    def on_global_write(self, mod, name, v): pass
    def on_print(self, args): pass

    def set_attr(self, o, name, v):
        raise Unsupported('attribute assignment on %r' % (o,))

    def set_item(self, o, k, v):
        raise Unsupported('item assignment on %r' % (o,))

    def symbolic_while(self, st): return False
    def iterate(self, v): return None
    def to_str(self, v): return None
    def chunk_split(self, cells): pass             # a text of unknown characters was split into single ones
    def equal_texts(self, a, b): return None      # what the equality of two texts implies
    def str_add(self, a, b): return None
    def join(self, sep, items): return None

    def no_len(self, v): return False

    def unop(self, op, v):
        I = self.I
        if isinstance(v, Ob):
            I.may_raise('unary %s' % op, unsure=True)
            return Ob(I.uf('op' + op, U, U)(v.t))
        if v is None or isinstance(v, (str, tuple, ListV, SetV, SeqV, DictV)):
            I.raise_(TypeError, 'unary %s' % op)
        raise Unsupported('unary %s of %r' % (op, v))

    def binop(self, op, a, b):
        I = self.I
        if isinstance(a, Ob) or isinstance(b, Ob):
            I.may_raise('operator %s' % op, unsure=True)
            return Ob(I.uf('bin' + op, U, U, U)(I.to_u(a), I.to_u(b)))
        if isinstance(a, ExtV) or isinstance(b, ExtV):
            I.taint('operator on an external name')
            return Ob(I.fresh(U, 'extop'))
        ka, kb = I.kind_of(a), I.kind_of(b)
        if ka is not None and kb is not None and no_operator(op, ka, kb):
            I.raise_(TypeError, 'operator %s' % op)
        raise Unsupported('operator %s on %r and %r' % (op, a, b))

    def compare(self, op, a, b):
        I = self.I
        if op in ('Eq', 'NotEq'):
            return None
        if isinstance(a, Ob) or isinstance(b, Ob):
            I.may_raise('comparison', unsure=True)
            return Ob(I.uf('cmp' + op, U, U, U)(I.to_u(a), I.to_u(b)))
        ka, kb = I.kind_of(a), I.kind_of(b)
        if ka is not None and kb is not None and ka != kb and not {ka, kb} <= {'int', 'float', 'bool'}:
            I.raise_(TypeError, 'comparison')
        return None

    def contains(self, x, c):
        I = self.I
        if isinstance(c, Ob) and c.ty is None:
            I.may_raise('in')
            return I.uf('o_contains', U, U, E.BOOL)(c.t, I.to_u(x))
        return None

    def getattr(self, o, name): return None
    def ext_attr(self, dotted, name): return None
    def slice(self, o, lo, hi, st): return None

    def subscript(self, o, k):
        if isinstance(o, Ob) and o.ty is None:
            self.I.may_raise('subscript')
            return Ob(self.I.uf('item_u', U, U, U)(o.t, self.I.to_u(k)))
        return None

    def dict_comp(self, e): return None
    def construct(self, c, args, kw): return None
    def call_ob(self, f, args, kw): return None
    def isinstance(self, v, t): return None
    def length(self, v): return None
    def builtin(self, name, args, kw): return None
    def make_set(self, items):
        raise Unsupported('set of a sequence of unknown length')
    def fold(self, name, items, start):
        if name == 'sum' and is_num(start):
            from .builtins_ import sum_loop
            return sum_loop(self.I, items, start)
        raise Unsupported(name + ' over a sequence of unknown length')
    def sorted(self, items, kw):
        raise Unsupported('sorted')
    def method(self, o, name, args, kw): return None
    def ob_method(self, o, name, args, kw): return None
    def ext(self, dotted, args, kw): return None
    def operator(self, name, args):
        raise Unsupported('operator.' + name)
    def loop_candidates(self, I, traces, at, seq): return []
    def loop_shapes(self, I, loc, init): return []

    def contract(self, qual):
        return self.contracts.get(qual)

    def used(self, qual):
        self.calls_used.add(qual)

    def func_override(self, f, args, kw): return None
    def allow_recursion(self, qual): return False


# ---------------------------------------------------------------- discharge

def solve(hyps, goal, timeout_ms=20000, extra=()):
    """-> (result, model, backend, seconds); result 'proved' / 'refuted' / 'unknown'."""
    t0 = time.time()
    s = z3.Solver()
    s.set('timeout', int(timeout_ms))
    s.add(*hyps)
    s.add(*extra)
    s.add(z3.Not(goal))
    r = s.check()
    if r == z3.unsat:
        return 'proved', None, 'z3', time.time() - t0
    if r == z3.sat:
        return 'refuted', s.model(), 'z3', time.time() - t0
    # a second solver
    try:
        import subprocess
        import tempfile
        import os
        txt = '(set-logic ALL)\n' + s.to_smt2()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt)
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % timeout_ms, '--finite-model-find' if False else '--full-saturate-quant', f.name],
                               capture_output=True, text=True, timeout=timeout_ms / 1000 + 10)
            out = p.stdout.strip().splitlines()
        finally:
            os.unlink(f.name)
        if out and out[0] == 'unsat':
            return 'proved', None, 'cvc5', time.time() - t0
    except Exception:
        pass
    return 'unknown', None, 'z3+cvc5', time.time() - t0
