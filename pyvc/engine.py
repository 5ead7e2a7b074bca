"""A verification-condition generator for a subset of Python.

It interprets the abstract syntax tree of the functions in /repo (read on every run; nothing is rewritten) over symbolic
values, path by path.  A path is a sequence of decisions; it is explored by re-running the function with the decisions
forced.  Calls to functions under contract use the contract, calls to other functions of the repository are inlined,
calls outside the repository go to the World (assumed contracts) or are havocked and may raise.  Loops over sequences of
unknown length are handled by an exact trace encoding (every variable the loop changes becomes a function of the
iteration number), closed forms for constant steps and one-append-per-iteration lists, and inductive invariants (filtered
from candidates by Houdini) for everything else.
"""
import ast
import builtins as _bi
import os
import time
import warnings
from fractions import Fraction

import z3

from .values import *


def is_conc(v):
    return v is None or isinstance(v, (str, int, float, bool))


MAX_INLINE = 40


def rv(v):
    """z3 Real/Int term of a Python number value."""
    if isinstance(v, bool):
        return z3.IntVal(1 if v else 0)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        f = Fraction(repr(v))
        return z3.RealVal('%d/%d' % (f.numerator, f.denominator))
    if isinstance(v, Fraction):
        return z3.RealVal('%d/%d' % (v.numerator, v.denominator))
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    return v


def zb(v):
    return z3.BoolVal(v) if isinstance(v, bool) else v


def band(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    return True if not out else (out[0] if len(out) == 1 else z3.And(*out))


def bor(*xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    return False if not out else (out[0] if len(out) == 1 else z3.Or(*out))


def bnot(x):
    return (not x) if isinstance(x, bool) else z3.Not(x)


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.src = open(path, encoding='utf-8').read()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            self.tree = ast.parse(self.src)
        self.vars = {}
        self.loaded = False


class Source:
    """The modules of /repo, parsed on demand."""
    def __init__(self, root):
        self.root = root
        self.mods = {}

    def path_of(self, name):
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isfile(p + '.py'):
            return p + '.py'
        if os.path.isfile(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py')
        return None

    def get(self, name):
        if name not in self.mods:
            p = self.path_of(name)
            if p is None:
                return None
            self.mods[name] = Module(name, p)
        return self.mods[name]

    def find_func(self, qual):
        """'module:func' or 'module:Class.func' -> (module, node) or None."""
        mn, fn = qual.split(':')
        m = self.get(mn)
        if m is None:
            return None
        body = m.tree.body
        parts = fn.split('.')
        for i, part in enumerate(parts):
            found = None
            for n in body:
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == part:
                    found = n
            if found is None:
                return None
            body = found.body
        return m, found


_hq = {}


def has_quantifier(f):
    k = f.get_id()
    if k in _hq and _hq[k][0].eq(f):
        return _hq[k][1]
    r = z3.is_quantifier(f) or any(has_quantifier(c) for c in f.children())
    _hq[k] = (f, r)
    return r


class Explorer:
    """The paths of one thunk, by depth-first re-execution."""
    def __init__(self, base, timeout_ms=400, limit=20000, qf=False):
        self.qf = qf             # feasibility from the quantifier-free facts only (more paths, each cheap)
        self.base = list(base)
        self.timeout_ms = timeout_ms
        self.limit = limit
        self.prefix = []
        self.loop_cache = {}

    def start_path(self):
        self.rounds = []
        self.pos = 0
        self.nloops = 0
        self.log = []            # calls a specification wants to see
        self.sets = []           # sets iterated on this path, with the order
        self.taint = set()       # unmodelled operations this path went through
        self.pc = list(self.base)
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout_ms)
        for f in self.pc:
            self.solver_add(f)

    def solver_add(self, f):
        if self.qf and is_z3(f):
            if z3.is_and(f):
                for g in f.children():
                    self.solver_add(g)
                return
            if has_quantifier(f):
                return
        self.solver.add(f)

    def feasible(self, f):
        self.solver.push()
        self.solver_add(f)
        r = self.solver.check()
        self.solver.pop()
        return r != z3.unsat

    def assume(self, f):
        if f is True:
            return
        if f is False:
            raise PathEnd()
        self.pc.append(f)
        self.solver_add(f)

    def choose_n(self, conds):
        """Pick one of several conditions (not necessarily exclusive); forks."""
        if self.pos < len(self.prefix):
            idx = self.prefix[self.pos][0]
        else:
            opts = [i for i, c in enumerate(conds) if c is True or (c is not False and self.feasible(c))]
            if not opts:
                raise PathEnd()
            self.prefix.append([opts[0], opts])
            idx = opts[0]
        self.pos += 1
        self.assume(conds[idx])
        return idx

    def choose(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.choose_n([c, z3.Not(c)]) == 0

    def next_path(self):
        while self.prefix:
            idx, opts = self.prefix[-1]
            i = opts.index(idx)
            if i + 1 < len(opts):
                self.prefix[-1][0] = opts[i + 1]
                return True
            self.prefix.pop()
        return False


class Frame:
    def __init__(self, module, closure=None, qual='?'):
        self.module, self.closure, self.qual = module, closure, qual
        self.vars = {}
        self.globals_decl = set()
        self.nonlocals = set()


class PathResult:
    def __init__(self, pc, kind, value, snap=None, ex=None):
        self.pc, self.kind, self.value, self.snap = pc, kind, value, snap
        self.log = list(ex.log) if ex else []
        self.taint = set(ex.taint) if ex else set()


class Obligation:
    def __init__(self, name, pc, goal, func):
        self.name, self.pc, self.goal, self.func = name, pc, goal, func
        self.result = None
        self.model = None
        self.backend = None
        self.time = 0.0


class Interp:
    def __init__(self, source, world, path_limit=6000):
        self.src, self.world = source, world
        world.I = self
        self.ex = None
        self.heap = {}
        self.frames = []
        self.allframes = []
        self.obls = []
        self.idx = []            # loop index terms in scope: fresh symbols become functions of them
        self.cnt = 0
        self.lits = {}
        self.int_consts = set()
        self.truthy_used = False
        self.depth = 0
        self.func = '?'
        self.path_limit = path_limit
        self.houdini_queries = 0
        self.loop_log = []
        self.external = {}       # external names met -> how treated
        self.inlined = set()
        self.deadline = None

    # ---------------------------------------------------------------- symbols
    def fresh(self, sort, hint='v'):
        self.cnt += 1
        name = '%s!%d' % (hint, self.cnt)
        if self.idx:
            f = z3.Function(name, *([t.sort() for t in self.idx] + [sort]))
            return f(*self.idx)
        return z3.Const(name, sort)

    def lit(self, s):
        if s not in self.lits:
            self.lits[s] = z3.Const('lit:%r' % s, U)
        return self.lits[s]

    def lit_axioms(self):
        ts = list(self.lits.values())
        none = z3.Const('None', U)
        ints = [self.uf('int2u', INT, U)(z3.IntVal(n)) for n in sorted(self.int_consts)]
        ts += [none] + ints
        out = [z3.Distinct(*ts)] if len(ts) > 1 else []
        if self.truthy_used:
            f = self.uf('truthy', U, BOOL)
            out += [z3.Not(f(none))] + [f(t) == (n != 0) for n, t in zip(sorted(self.int_consts), ints)] + [f(t) == bool(s) for s, t in self.lits.items()]
        return out

    def uf(self, name, *sorts):
        return z3.Function(name, *sorts)

    def to_u(self, v):
        if isinstance(v, Ob):
            return v.t
        if hasattr(v, 'sym_u'):
            return v.sym_u(self)
        if v is None:
            return z3.Const('None', U)
        if isinstance(v, str):
            return self.lit(v)
        if is_bool(v):
            return self.uf('bool2u', BOOL, U)(zb(v))
        if is_int(v):
            if isinstance(v, int):
                self.int_consts.add(v)
            return self.uf('int2u', INT, U)(rv(v))
        if is_real(v):
            return self.uf('real2u', REAL, U)(rv(v))
        if isinstance(v, tuple):
            ts = [self.to_u(x) for x in v]
            if not ts:
                return z3.Const('tuple0', U)
            return self.uf('tuple%d' % len(ts), *([U] * (len(ts) + 1)))(*ts)
        if isinstance(v, SeqV):
            if v.u is not None:
                return v.u
            return self.fresh(U, 'seq')
        if isinstance(v, ListV):
            c = self.heap[v.id]
            if isinstance(c, list):
                ts = [self.to_u(x) for x in c]
                if not ts:
                    return z3.Const('list0', U)
                return self.uf('list%d' % len(ts), *([U] * (len(ts) + 1)))(*ts)
            if c.u is not None:
                return c.u
            return self.fresh(U, 'list')
        if isinstance(v, (ExtV,)):
            return z3.Const('ext:' + v.dotted, U)
        if isinstance(v, (BuiltinV, FuncV, ClassV)):
            return z3.Const('fn:' + v.name, U)
        if isinstance(v, SetV):
            ts = [self.to_u(x) for x in v.items]
            if not ts:
                return z3.Const('set0', U)
            return self.uf('set%d' % len(ts), *([U] * (len(ts) + 1)))(*ts)
        return self.fresh(U, 'u')

    # ---------------------------------------------------------------- path control
    def choose(self, c):
        return self.ex.choose(c)

    def choose_n(self, cs):
        return self.ex.choose_n(cs)

    def assume(self, f):
        self.ex.assume(f)

    def log(self, *what):
        self.ex.log.append(what)

    def taint(self, why):
        self.ex.taint.add(why)

    def oblige(self, name, goal):
        self.obls.append(Obligation(name, list(self.ex.pc), zb(goal), self.func))

    def snapshot(self):
        return ([(f, dict(f.vars)) for f in self.allframes],
                {k: (list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v) for k, v in self.heap.items()},
                [(m, dict(m.vars)) for m in self.src.mods.values()], list(self.frames), self.depth,
                len(self.allframes))

    def restore(self, s):
        fr, heap, mods, frames, depth, na = s
        for f, vs in fr:
            f.vars = dict(vs)
        self.heap = {k: (list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v) for k, v in heap.items()}
        for m, vs in mods:
            m.vars = dict(vs)
            if getattr(m, 'frame', None) is not None:
                m.frame.vars = m.vars
        self.frames = list(frames)
        self.depth = depth
        del self.allframes[na:]

    def explore(self, thunk, limit=None, want_snap=False):
        """All paths of thunk from the current state.  Leaves the state as it was."""
        outer = self.ex
        base = outer.pc if outer else list(self.world.background())
        ex = Explorer(base, qf=self.world.qf)
        snap = self.snapshot()
        res = []
        nb = len(base)
        n = 0
        cnt0 = top = self.cnt
        try:
            self.ex = ex
            while True:
                n += 1
                if n > (limit or self.path_limit):
                    raise Unsupported('more than %d paths' % (limit or self.path_limit))
                if self.deadline and time.time() > self.deadline:
                    raise Unsupported('time budget for path enumeration exceeded')
                self.restore(snap)
                top = max(top, self.cnt)
                if self.world.det:
                    self.cnt = cnt0
                ex.start_path()
                try:
                    v = thunk()
                    res.append(PathResult(ex.pc[nb:], 'ok', v, self.snapshot() if want_snap else None, ex))
                except PyExc as e:
                    res.append(PathResult(ex.pc[nb:], 'raise', e.exc, self.snapshot() if want_snap else None, ex))
                except RetSig as e:
                    res.append(PathResult(ex.pc[nb:], 'return', e.value, self.snapshot() if want_snap else None, ex))
                except BreakSig:
                    res.append(PathResult(ex.pc[nb:], 'break', None, self.snapshot() if want_snap else None, ex))
                except ContSig:
                    res.append(PathResult(ex.pc[nb:], 'continue', None, self.snapshot() if want_snap else None, ex))
                except PathEnd:
                    pass
                if not ex.next_path():
                    break
        finally:
            self.ex = outer
            self.restore(snap)
            self.cnt = max(top, self.cnt)
        if outer is not None:
            for r in res:
                outer.taint |= r.taint
        return res

    # ---------------------------------------------------------------- heap values
    def new_list(self, content):
        self.cnt += 1
        i = self.cnt
        self.heap[i] = content
        return ListV(i)

    def new_dict(self, content):
        self.cnt += 1
        self.heap[self.cnt] = content
        return DictV(self.cnt)

    def content(self, v):
        return self.heap[v.id]

    # ---------------------------------------------------------------- exceptions
    def raise_(self, cls, why=''):
        raise PyExc(ExcV(cls, (), why))

    def may_raise(self, why, cond=None, unsure=False):
        """Fork: the current operation raises an unknown Exception (if cond, when given, can hold).  unsure: whether it can
        raise at all is not known, so that nothing is refuted by a path on which it does."""
        c = cond if cond is not None else self.fresh(BOOL, 'raises')
        if self.choose(c):
            if unsure:
                self.taint(why + ' on an unknown value')
            raise PyExc(ExcV(None, (), why))

    # ---------------------------------------------------------------- truth, equality
    def truth(self, v):
        if v is None:
            return False
        if isinstance(v, (bool, int, float, str, tuple, bytes)):
            return bool(v)
        if isinstance(v, z3.BoolRef):
            return v
        if isinstance(v, z3.ArithRef):
            return v != 0
        if isinstance(v, Ob):
            h = self.world.truth(v)
            if h is not None:
                return h
            if v.ty == 'str':
                return v.t != self.lit('')
            self.truthy_used = True
            return self.uf('truthy', U, BOOL)(v.t)
        if isinstance(v, SeqV):
            return v.n > 0
        if isinstance(v, ListV):
            c = self.heap[v.id]
            return bool(c) if isinstance(c, list) else c.n > 0
        if isinstance(v, SetV):
            return len(v.items) > 0
        if isinstance(v, DictV):
            return bool(self.heap[v.id])
        if isinstance(v, Poison):
            raise Unsupported('use of %s' % v.why)
        if hasattr(v, 'sym_truth'):
            return v.sym_truth(self)
        h = self.world.truth(v)
        return True if h is None else h

    def eq(self, a, b):
        """Python == as a bool or z3 Bool."""
        if hasattr(a, 'sym_eq'):
            return a.sym_eq(self, b)
        if hasattr(b, 'sym_eq'):
            return b.sym_eq(self, a)
        h = self.world.eq(a, b)
        if h is not None:
            return h
        conc = (bool, int, float, str, bytes, type(None))
        if isinstance(a, conc) and isinstance(b, conc):
            return a == b
        if is_num(a) and is_num(b):
            if isinstance(a, z3.BoolRef) and is_bool(b) or isinstance(b, z3.BoolRef) and is_bool(a):
                return zb(a) == zb(b)
            return rv(a) == rv(b)
        if a is None or b is None:
            o = b if a is None else a
            if isinstance(o, Ob) and o.ty is None:
                return o.t == z3.Const('None', U)
            return False
        if isinstance(a, Ob) or isinstance(b, Ob):
            x, y = (a, b) if isinstance(a, Ob) else (b, a)
            if isinstance(y, Ob):
                if x.ty and y.ty and x.ty != y.ty and 'str' in (x.ty, y.ty):
                    return False
                return x.t == y.t
            if isinstance(y, str):
                if x.ty not in (None, 'str'):
                    return False
                return x.t == self.lit(y)
            if x.ty == 'str':
                return False
            return x.t == self.to_u(y)
        ka, kb = self.kind_of(a), self.kind_of(b)
        if ka in ('list', 'tuple') and kb in ('list', 'tuple'):
            if ka != kb:
                return False
            ca, cb = self.items_of(a), self.items_of(b)
            if isinstance(ca, list) and isinstance(cb, list):
                if len(ca) != len(cb):
                    return False
                return band(*[self.eq(x, y) for x, y in zip(ca, cb)])
            sa, sb = self.as_seq(a), self.as_seq(b)
            j = z3.Int('q!%d' % self.next())
            e = self.eq(sa.get(j), sb.get(j))
            return z3.And(sa.n == sb.n, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < sa.n), zb(e))))
        if ka != kb and ka and kb:
            return False
        if ka == 'set':
            if isinstance(a, SetV) and isinstance(b, SetV):
                f1 = band(*[bor(*[self.eq(x, y) for y in b.items]) for x in a.items])
                f2 = band(*[bor(*[self.eq(x, y) for y in a.items]) for x in b.items])
                return band(f1, f2)
            return self.fresh(BOOL, 'seteq')
        if isinstance(a, (FuncV, ExtV, BuiltinV, ClassV)) or isinstance(b, (FuncV, ExtV, BuiltinV, ClassV)):
            return self.same(a, b)
        raise Unsupported('== on %r and %r' % (a, b))

    def next(self):
        self.cnt += 1
        return self.cnt

    def same(self, a, b):
        """Python `is`."""
        if isinstance(a, ExtV) and isinstance(b, ExtV):
            return a.dotted == b.dotted
        if isinstance(a, BuiltinV) and isinstance(b, BuiltinV):
            return a.name == b.name
        if isinstance(a, FuncV) and isinstance(b, FuncV):
            return a.node is b.node
        if isinstance(a, ClassV) and isinstance(b, ClassV):
            return a is b
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            o, c = (a, b) if (b is None or isinstance(b, bool)) else (b, a)
            if o is None or isinstance(o, bool):
                return o is c
            if c is None:
                if isinstance(o, Ob) and o.ty is None:
                    h = self.world.is_none(o)
                    return h if h is not None else o.t == z3.Const('None', U)
                return False
            if isinstance(o, z3.BoolRef):
                return o if c else z3.Not(o)
            if isinstance(o, Ob) and o.ty is None:
                return o.t == self.to_u(c)
            return False
        if isinstance(a, z3.BoolRef) and isinstance(b, z3.BoolRef):
            return a == b
        if is_num(a) and is_num(b) and not isinstance(a, z3.BoolRef) and not isinstance(b, z3.BoolRef):
            # identity of equal numbers is left open by the language
            r = self.fresh(BOOL, 'is')
            self.assume(z3.Implies(r, zb(self.eq(a, b))))
            self.taint('identity of numbers')
            return r
        if isinstance(a, Ob) and isinstance(b, Ob):
            return a.t == b.t
        if isinstance(a, Ob) or isinstance(b, Ob):
            x, y = (a, b) if isinstance(a, Ob) else (b, a)
            return x.t == self.to_u(y)
        if isinstance(a, (ListV, DictV)) and isinstance(b, (ListV, DictV)):
            return a.id == b.id
        return a is b

    def kind_of(self, v):
        if isinstance(v, tuple):
            return 'tuple'
        if isinstance(v, ListV):
            return 'list'
        if isinstance(v, SeqV):
            return v.kind
        if isinstance(v, SetV):
            return 'set'
        if isinstance(v, DictV):
            return 'dict'
        if isinstance(v, str) or isinstance(v, Ob) and v.ty == 'str' or hasattr(v, 'is_seg'):
            return 'str'
        if isinstance(v, bool) or isinstance(v, z3.BoolRef):
            return 'bool'
        if is_int(v):
            return 'int'
        if is_real(v):
            return 'float'
        if v is None:
            return 'NoneType'
        return None

    def items_of(self, v):
        """Python list of the elements when their number is known, else the SeqV."""
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, ListV):
            return self.heap[v.id]
        if isinstance(v, SetV):
            return self.enum_set(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, DictV):
            return list(self.heap[v.id].keys())
        if isinstance(v, range):
            return list(v)
        return v

    def enum_set(self, v):
        """The elements of a set in the order in which it is iterated: any order, but the same one every time on a path."""
        if len(v.items) < 2:
            return list(v.items)
        for w, l in self.ex.sets:
            if w is v:
                return list(l)
        out = []
        for x in v.items:
            if is_conc(x) and all(is_conc(y) for y in out):
                if x not in out:
                    out.append(x)
            elif not any(self.choose(zb(self.eq(x, y))) for y in out):
                out.append(x)
        if 1 < len(out) <= 3 and not all(is_conc(x) and not isinstance(x, str) for x in out):
            rest, out = out, []
            while rest:
                i = self.choose_n([True] * len(rest)) if len(rest) > 1 else 0
                out.append(rest.pop(i))
        self.ex.sets.append((v, out))
        return list(out)

    def as_seq(self, v):
        c = self.items_of(v)
        if isinstance(c, SeqV):
            return c
        if isinstance(c, list):
            items = list(c)

            def get(i):
                if isinstance(i, int):
                    return items[i]
                s = z3.simplify(i)
                if z3.is_int_value(s):
                    return items[s.as_long()]
                return self.merge_items(items, i)
            return SeqV(self.kind_of(v) or 'list', z3.IntVal(len(items)), get)
        raise Unsupported('not a sequence: %r' % (v,))

    def merge_items(self, items, i):
        if not items:
            raise Unsupported('element of an empty sequence')
        if all(is_bool(x) for x in items):
            r = zb(items[-1])
            for k in range(len(items) - 2, -1, -1):
                r = z3.If(i == k, zb(items[k]), r)
            return r
        if all(is_int(x) for x in items):
            r = rv(items[-1])
            for k in range(len(items) - 2, -1, -1):
                r = z3.If(i == k, rv(items[k]), r)
            return r
        ts = [self.to_u(x) for x in items]
        tys = {x.ty if isinstance(x, Ob) else self.kind_of(x) for x in items}
        r = ts[-1]
        for k in range(len(items) - 2, -1, -1):
            r = z3.If(i == k, ts[k], r)
        return Ob(r, tys.pop() if len(tys) == 1 else None)

    # ---------------------------------------------------------------- modules
    def load_module(self, m):
        if m.loaded:
            return
        m.loaded = True
        fr = Frame(m, None, m.name)
        fr.vars = m.vars
        m.frame = fr
        for st in m.tree.body:
            if isinstance(st, ast.FunctionDef):
                m.vars[st.name] = ('lazy', st)
            elif isinstance(st, ast.ClassDef):
                m.vars[st.name] = ('lazy', st)
            elif isinstance(st, (ast.Assign, ast.AnnAssign)):
                tg = st.targets if isinstance(st, ast.Assign) else [st.target]
                for t in tg:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            m.vars[n.id] = ('lazy', st)
            elif isinstance(st, (ast.Import, ast.ImportFrom)):
                self.do_import(st, m.vars, m)
            elif isinstance(st, ast.Try):
                # imports in try (package layout): take the handler's relative imports when present
                for s in st.body + [x for h in st.handlers for x in h.body]:
                    if isinstance(s, (ast.Import, ast.ImportFrom)):
                        self.do_import(s, m.vars, m)
            elif isinstance(st, ast.If):
                pass

    def do_import(self, st, target, m):
        if isinstance(st, ast.Import):
            for a in st.names:
                top = a.name.split('.')[0]
                if a.asname:
                    target[a.asname] = self.mod_value(a.name)
                else:
                    target[top] = self.mod_value(top)
            return
        base = st.module or ''
        if st.level:
            pkg = m.name.split('.')
            if not m.path.endswith('__init__.py'):
                pkg = pkg[:-1]
            pkg = pkg[:len(pkg) - (st.level - 1)]
            base = '.'.join(pkg + ([st.module] if st.module else []))
        rm = self.src.get(base)
        for a in st.names:
            if rm is not None:
                self.load_module(rm)
                if a.name == '*':
                    for k, v in rm.vars.items():
                        if not k.startswith('_'):
                            target[k] = ('from', rm, k)
                elif a.name in rm.vars:
                    target[a.asname or a.name] = ('from', rm, a.name)
                else:
                    target[a.asname or a.name] = self.mod_value(base + '.' + a.name)
            else:
                if a.name != '*':
                    target[a.asname or a.name] = ExtV(base + '.' + a.name)

    def mod_value(self, name):
        m = self.src.get(name)
        if m is not None:
            self.load_module(m)
            return ModV(m)
        return ExtV(name)

    def module_var(self, m, name):
        v = m.vars[name]
        if isinstance(v, tuple) and v and v[0] == 'from':
            return self.module_var(v[1], v[2])
        if isinstance(v, tuple) and v and v[0] == 'lazy':
            st = v[1]
            ov = self.world.module_global(m.name, name)
            if ov is not None:
                m.vars[name] = ov
                return ov
            if isinstance(st, ast.FunctionDef):
                f = self.make_func(st, m, None, '%s:%s' % (m.name, st.name))
                m.vars[name] = f
                f = self.decorate(st, f, m)
                m.vars[name] = f
                return f
            if isinstance(st, ast.ClassDef):
                bases = []
                for b in st.bases:
                    bases.append(b.id if isinstance(b, ast.Name) else getattr(b, 'attr', '?'))
                m.vars[name] = ClassV(st.name, bases, m)
                return m.vars[name]
            save = self.frames
            self.frames = [m.frame]
            try:
                self.exec_stmt(st)
            finally:
                self.frames = save
            v = m.vars[name]
            if isinstance(v, tuple) and v and v[0] == 'lazy':
                raise Unsupported('module variable %s' % name)
        return v

    def make_func(self, node, m, closure, qual):
        fr = Frame(m, closure, qual)
        save = self.frames
        self.frames = self.frames + [fr] if closure is not None else [m.frame]
        if closure is not None:
            self.frames = save
        try:
            defaults = [self.eval(d) for d in node.args.defaults]
            kwd = [self.eval(d) if d is not None else UNDEF for d in node.args.kw_defaults]
        finally:
            self.frames = save
        name = getattr(node, 'name', '<lambda>')
        return FuncV(node, m, closure, name, defaults, kwd, qual)

    def decorate(self, node, f, m):
        for d in reversed(node.decorator_list):
            save = self.frames
            if not self.frames:
                self.frames = [m.frame]
            try:
                dv = self.eval(d)
            finally:
                self.frames = save
            f = self.call(dv, [f], {})
        return f

    # ---------------------------------------------------------------- names
    def frame(self):
        return self.frames[-1]

    def lookup(self, name):
        fr = self.frame()
        if name in fr.globals_decl:
            return self.lookup_global(fr.module, name)
        f = fr
        while f is not None:
            if name in f.vars and f is not getattr(f.module, 'frame', None):
                v = f.vars[name]
                if v is UNDEF:
                    self.raise_(UnboundLocalError, name)
                if isinstance(v, Poison) and v.resolve is not None:
                    v.resolve(v)
                    v = f.vars[name]
                if isinstance(v, Poison):
                    raise Unsupported('use of %s' % v.why)
                if v is UNDEF:
                    self.raise_(UnboundLocalError, name)
                return v
            f = f.closure
        return self.lookup_global(fr.module, name)

    def lookup_global(self, m, name):
        if name in m.vars:
            v = self.module_var(m, name)
            if v is UNDEF:
                self.raise_(NameError, name)
            if isinstance(v, Poison):
                raise Unsupported('use of %s' % v.why)
            return v
        ov = self.world.module_global(m.name, name)
        if ov is not None:
            m.vars[name] = ov
            return ov
        if hasattr(_bi, name):
            return BuiltinV(name)
        # a module global that only functions assign
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global) and name in n.names:
                return self.world.unassigned_global(m.name, name)
        self.raise_(NameError, name)

    def store(self, name, v):
        fr = self.frame()
        if name in fr.globals_decl:
            m = fr.module
            if name in m.vars and isinstance(m.vars[name], tuple) and m.vars[name] and m.vars[name][0] == 'from':
                pass
            m.vars[name] = v
            self.world.on_global_write(m.name, name, v)
            return
        if name in fr.nonlocals:
            f = fr.closure
            while f is not None:
                if name in f.vars:
                    f.vars[name] = v
                    return
                f = f.closure
            raise Unsupported('nonlocal %s' % name)
        fr.vars[name] = v

    # ---------------------------------------------------------------- statements
    def exec_block(self, body):
        for st in body:
            self.exec_stmt(st)

    def exec_stmt(self, st):
        m = getattr(self, 'st_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(st).__name__)
        m(st)

    def st_Expr(self, st):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value)

    def st_Pass(self, st):
        pass

    def st_Assign(self, st):
        v = self.eval(st.value)
        for t in st.targets:
            self.assign(t, v)

    def st_AnnAssign(self, st):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value))

    def st_AugAssign(self, st):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            k = self.eval(t.slice)
            cur = self.subscript(o, k)
        elif isinstance(t, ast.Attribute):
            cur = self.getattr(self.eval(t.value), t.attr)
        else:
            raise Unsupported('augmented assignment target')
        r = self.eval(st.value)
        if isinstance(cur, ListV) and isinstance(st.op, ast.Add):
            self.list_extend(cur, r)
            return
        v = self.binop(st.op, cur, r)
        if isinstance(t, ast.Subscript):
            self.set_item(o, k, v)
        else:
            self.assign(t, v)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.store(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            c = self.items_of(v)
            stars = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if stars:
                i, after = stars[0], n - 1 - stars[0]
                if isinstance(c, list):
                    if len(c) < n - 1:
                        self.raise_(ValueError, 'unpack')
                    e = len(c) - after
                    head, mid, tail = c[:i], self.new_list(c[i:e]), c[e:]
                elif isinstance(c, SeqV):
                    if not self.choose(c.n >= n - 1):
                        self.raise_(ValueError, 'unpack')
                    head = [c.get(z3.IntVal(k)) for k in range(i)]
                    tail = [c.get(z3.simplify(c.n - after + k)) for k in range(after)]
                    mid = self.new_list(SeqV('list', z3.simplify(c.n - n + 1), lambda k: c.get(k + i)))
                else:
                    raise Unsupported('starred assignment')
                for x, y in zip(t.elts, head + [mid] + tail):
                    self.assign(x.value if isinstance(x, ast.Starred) else x, y)
                return
            if isinstance(c, SeqV):
                if not self.choose(c.n == n):
                    self.raise_(ValueError, 'unpack')
                vals = [c.get(z3.IntVal(i)) for i in range(n)]
            elif isinstance(c, list):
                if len(c) != n:
                    self.raise_(ValueError, 'unpack')
                vals = c
            elif isinstance(c, Ob):
                vals = self.world.unpack(c, n)
            else:
                raise Unsupported('unpacking %r' % (v,))
            for x, y in zip(t.elts, vals):
                self.assign(x, y)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            k = self.eval(t.slice)
            self.set_item(o, k, v)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            self.set_attr(o, t.attr, v)
        else:
            raise Unsupported('assignment target %s' % type(t).__name__)

    def set_attr(self, o, name, v):
        if isinstance(o, ModV):
            o.mod.vars[name] = v
            self.world.on_global_write(o.mod.name, name, v)
            return
        self.world.set_attr(o, name, v)

    def set_item(self, o, k, v):
        if isinstance(o, DictV):
            if isinstance(k, (str, int, bool, type(None), tuple)) or isinstance(k, Ob):
                self.heap[o.id] = dict(self.heap[o.id])
                self.heap[o.id][self.dkey(k)] = v
                return
        if isinstance(o, ListV):
            c = self.heap[o.id]
            if isinstance(c, list):
                if isinstance(k, int):
                    if not -len(c) <= k < len(c):
                        self.raise_(IndexError)
                    c = list(c)
                    c[k] = v
                    self.heap[o.id] = c
                    return
                s = self.as_seq(o)
            else:
                s = c
            k = rv(k)
            if self.choose(z3.Or(k >= s.n, k < -s.n)):
                self.raise_(IndexError)
            kk = z3.If(k < 0, k + s.n, k)

            def get(i, s=s, kk=kk, v=v):
                i = rv(i)
                return self.ite(i == kk, v, lambda: s.get(i))
            self.heap[o.id] = SeqV('list', s.n, get)
            return
        self.world.set_item(o, k, v)

    def dkey(self, k):
        if isinstance(k, Ob):
            return ('ob', str(k.t))
        return k

    def ite(self, c, a, bf):
        c = z3.simplify(c) if is_z3(c) else c
        if c is True or is_z3(c) and z3.is_true(c):
            return a
        b = bf()
        if c is False or is_z3(c) and z3.is_false(c):
            return b
        if is_bool(a) and is_bool(b):
            return z3.If(c, zb(a), zb(b))
        if is_num(a) and is_num(b):
            return z3.If(c, rv(a), rv(b))
        ta = a.ty if isinstance(a, Ob) else self.kind_of(a)
        tb = b.ty if isinstance(b, Ob) else self.kind_of(b)
        return Ob(z3.If(c, self.to_u(a), self.to_u(b)), ta if ta == tb else None)

    def st_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.store(t.id, UNDEF)
            else:
                raise Unsupported('del')

    def st_Return(self, st):
        raise RetSig(self.eval(st.value) if st.value is not None else None)

    def st_Break(self, st):
        raise BreakSig()

    def st_Continue(self, st):
        raise ContSig()

    def st_Global(self, st):
        self.frame().globals_decl.update(st.names)

    def st_Nonlocal(self, st):
        self.frame().nonlocals.update(st.names)

    def st_Import(self, st):
        self.do_import(st, self.frame().vars, self.frame().module)
        self.resolve_from()

    def st_ImportFrom(self, st):
        self.do_import(st, self.frame().vars, self.frame().module)
        self.resolve_from()

    def resolve_from(self):
        fr = self.frame()
        for k, v in list(fr.vars.items()):
            if isinstance(v, tuple) and len(v) == 3 and v[0] == 'from':
                fr.vars[k] = self.module_var(v[1], v[2])

    def st_FunctionDef(self, st):
        fr = self.frame()
        f = self.make_func(st, fr.module, fr, '%s.%s' % (fr.qual, st.name))
        f = self.decorate(st, f, fr.module)
        self.store(st.name, f)

    def st_Assert(self, st):
        if not self.choose(self.truth(self.eval(st.test))):
            self.raise_(AssertionError)

    def st_If(self, st):
        if self.choose(self.truth(self.eval_cond(st.test))):
            self.exec_block(st.body)
        else:
            self.exec_block(st.orelse)

    def st_Raise(self, st):
        if st.exc is None:
            if getattr(self, 'current_exc', None):
                raise PyExc(self.current_exc[-1])
            raise Unsupported('bare raise')
        v = self.eval(st.exc)
        if isinstance(v, ExcV):
            raise PyExc(v)
        if isinstance(v, BuiltinV):
            self.raise_(getattr(_bi, v.name))
        if isinstance(v, (ExtV, ClassV)):
            raise PyExc(ExcV(None, (), 'raise'))
        raise Unsupported('raise %r' % (v,))

    def match_exc(self, h, exc):
        if h is None:
            return True
        if isinstance(h, tuple):
            return any(self.match_exc(x, exc) for x in h)
        if isinstance(h, BuiltinV):
            c = getattr(_bi, h.name)
            if c in (Exception, BaseException):
                return exc.cls is None or issubclass(exc.cls, c)
            if exc.cls is not None:
                return issubclass(exc.cls, c)
            return self.choose(self.fresh(BOOL, 'isexc_' + h.name))
        if isinstance(h, (ExtV, ClassV)):
            if exc.cls is not None:
                return False
            return self.choose(self.fresh(BOOL, 'isexc'))
        raise Unsupported('except clause %r' % (h,))

    def st_Try(self, st):
        def body():
            try:
                self.exec_block(st.body)
            except PyExc as e:
                exc = e.exc
                for h in st.handlers:
                    ht = self.eval(h.type) if h.type is not None else None
                    if self.match_exc(ht, exc):
                        if h.name:
                            self.store(h.name, exc)
                        if not hasattr(self, 'current_exc'):
                            self.current_exc = []
                        self.current_exc.append(exc)
                        try:
                            self.exec_block(h.body)
                        finally:
                            self.current_exc.pop()
                        return
                raise
            self.exec_block(st.orelse)
        if not st.finalbody:
            body()
            return
        try:
            body()
        except (PyExc, RetSig, BreakSig, ContSig):
            self.exec_block(st.finalbody)
            raise
        self.exec_block(st.finalbody)

    def st_With(self, st):
        raise Unsupported('with')

    def st_ClassDef(self, st):
        raise Unsupported('class in function')

    def st_For(self, st):
        if not st.orelse and len(st.body) == 1 and self.fills_dict(st):
            return
        it = self.eval(st.iter)
        self.loop_for(it, st.target, st.body, st.orelse)

    def fills_dict(self, st):
        """for x in s: d[key] = value  into a new empty dictionary, in a world that describes dictionary displays as a whole"""
        b = st.body[0]
        if not (isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Subscript) and isinstance(b.targets[0].value, ast.Name)):
            return False
        name = b.targets[0].value.id
        d = self.frame().vars.get(name)
        if not isinstance(d, DictV) or self.heap[d.id] or any(isinstance(n, ast.Name) and n.id == name for t in (b.value, b.targets[0].slice) for n in ast.walk(t)):
            return False
        from .loops import references
        if references(self.snapshot(), d.id) != 1:
            return False
        e = ast.DictComp(key=b.targets[0].slice, value=b.value, generators=[ast.comprehension(target=st.target, iter=st.iter, ifs=[], is_async=0)])
        v = self.world.dict_comp(ast.copy_location(e, st))
        if v is None:
            return False
        self.frame().vars[name] = v
        return True

    def iter_items(self, it):
        """list of items when concrete, else SeqV."""
        if isinstance(it, HookV) or isinstance(it, Ob) or getattr(it, 'is_dyn', False):
            s = self.world.iterate(it)
            if s is not None:
                it = s
            elif isinstance(it, Ob) and it.ty == 'str':
                n = self.uf('s_len', U, INT)(it.t)
                self.assume(n >= 0)
                ch, t = self.uf('s_char', U, INT, U), it.t
                it = SeqV('str', n, lambda i: Ob(ch(t, rv(i)), 'str'))
            else:
                raise Unsupported('iteration over %r' % (it,))
        if hasattr(it, 'sym_iter'):
            it = it.sym_iter(self)
        c = self.items_of(it)
        if isinstance(c, list):
            return list(c)
        if isinstance(c, SeqV):
            s = z3.simplify(c.n)
            if z3.is_int_value(s):
                return [c.get(z3.IntVal(i)) for i in range(s.as_long())]
            return c
        if c is None or is_num(c):
            self.raise_(TypeError, 'not iterable')
        raise Unsupported('iteration over %r' % (it,))

    def loop_for(self, it, target, body, orelse):
        items = self.iter_items(it)
        if isinstance(items, list):
            for x in items:
                self.assign(target, x)
                try:
                    self.exec_block(body)
                except BreakSig:
                    return
                except ContSig:
                    pass
            self.exec_block(orelse)
            return
        from .loops import symbolic_loop
        seq = items

        def body_at(j):
            self.assign(target, seq.get(j))
            self.exec_block(body)
        done = symbolic_loop(self, seq, body_at, seq.n, None)
        if done:
            self.exec_block(orelse)

    def st_While(self, st):
        # unroll while the condition is decided without forking
        n = 0
        while True:
            c = self.eval_cond(st.test)
            c = self.truth(c)
            if is_z3(c):
                c2 = z3.simplify(c)
                if z3.is_true(c2):
                    c = True
                elif z3.is_false(c2):
                    c = False
            if not isinstance(c, bool):
                break
            if not c:
                self.exec_block(st.orelse)
                return
            n += 1
            if n > 400:
                raise Unsupported('while: more than 400 unrolled iterations')
            if n == 1 and self.world.symbolic_while(st):
                break
            try:
                self.exec_block(st.body)
            except BreakSig:
                return
            except ContSig:
                pass
        from .loops import symbolic_loop

        def body_at(j):
            self.exec_block(st.body)

        def cond():
            return self.choose(self.truth(self.eval(st.test)))
        done = symbolic_loop(self, None, body_at, None, cond)
        if done:
            self.exec_block(st.orelse)

    # ---------------------------------------------------------------- expressions
    def eval(self, e):
        m = getattr(self, 'ex_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e)

    def eval_cond(self, e):
        return self.eval(e)

    def ex_Constant(self, e):
        return e.value

    def ex_Name(self, e):
        return self.lookup(e.id)

    def ex_NamedExpr(self, e):
        v = self.eval(e.value)
        self.store(e.target.id, v)
        return v

    def elts(self, es):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value)
                c = self.iter_items(v)
                if isinstance(c, list):
                    out += c
                else:
                    out.append(StarSeq(c))
            else:
                out.append(self.eval(x))
        return out

    def ex_Tuple(self, e):
        return self.seq_from(self.elts(e.elts), 'tuple')

    def ex_List(self, e):
        r = self.seq_from(self.elts(e.elts), 'list')
        return self.new_list(list(r)) if isinstance(r, tuple) else self.new_list(r)

    def seq_from(self, items, kind):
        if not any(isinstance(x, StarSeq) for x in items):
            return tuple(items)
        parts = []
        cur = []
        for x in items:
            if isinstance(x, StarSeq):
                if cur:
                    parts.append(self.as_seq(tuple(cur)))
                    cur = []
                parts.append(x.seq)
            else:
                cur.append(x)
        if cur:
            parts.append(self.as_seq(tuple(cur)))
        r = parts[0]
        for p in parts[1:]:
            r = self.concat(r, p, kind)
        return r

    def concat(self, a, b, kind):
        def get(i):
            i = rv(i)
            c = z3.simplify(i < a.n)
            if z3.is_true(c):
                return a.get(i)
            if z3.is_false(c):
                return b.get(z3.simplify(i - a.n))
            return self.ite(i < a.n, a.get(i), lambda: b.get(i - a.n))
        r = SeqV(kind, z3.simplify(a.n + b.n), get)
        parts = (getattr(self, '_parts', {}).get(id(a)) or [a]) + (getattr(self, '_parts', {}).get(id(b)) or [b])
        if not hasattr(self, '_parts'):
            self._parts = {}
        self._parts[id(r)] = parts
        self._keep = getattr(self, '_keep', [])
        self._keep.append(r)
        return r

    def parts_of(self, s):
        return getattr(self, '_parts', {}).get(id(s)) or [s]

    def ex_Set(self, e):
        return SetV(self.dedup(self.elts(e.elts)))

    def dedup(self, items):
        out = []
        for x in items:
            if isinstance(x, (str, int, bool)) and any(type(x) is type(y) and x == y for y in out):
                continue
            out.append(x)
        return out

    def ex_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unsupported('dict **')
            d[self.dkey(self.eval(k))] = self.eval(v)
        return self.new_dict(d)

    def ex_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value)
                if v.conversion not in (-1, 115) or v.format_spec is not None:
                    if isinstance(x, (str, int, bool, float)) and v.format_spec is None:
                        x = repr(x) if v.conversion == 114 else str(x)
                    else:
                        x = self.opaque_str('fmt', x)
                parts.append(self.to_str(x))
        return self.concat_strs(parts)

    def opaque_str(self, name, *vs):
        ts = [self.to_u(v) for v in vs]
        return Ob(self.uf('s_' + name, *([U] * (len(ts) + 1)))(*ts), 'str')

    def to_str(self, x):
        if isinstance(x, str):
            return x
        if isinstance(x, (int, float, bool)) or x is None:
            return str(x)
        if isinstance(x, Ob) and x.ty == 'str' or hasattr(x, 'is_seg'):
            return x
        h = self.world.to_str(x)
        if h is not None:
            return h
        return self.opaque_str('str', x)

    def concat_strs(self, parts):
        r = ''
        for p in parts:
            r = self.str_add(r, p)
        return r

    def str_add(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        if a == '' if isinstance(a, str) else False:
            return b
        if b == '' if isinstance(b, str) else False:
            return a
        if hasattr(a, 'sym_add'):
            return a.sym_add(self, b, False)
        if hasattr(b, 'sym_add'):
            return b.sym_add(self, a, True)
        h = self.world.str_add(a, b)
        if h is not None:
            return h
        return Ob(self.uf('s_add', U, U, U)(self.to_u(a), self.to_u(b)), 'str')

    def ex_IfExp(self, e):
        if self.choose(self.truth(self.eval(e.test))):
            return self.eval(e.body)
        return self.eval(e.orelse)

    def ex_Lambda(self, e):
        fr = self.frame()
        return self.make_func(e, fr.module, fr, fr.qual + '.<lambda>')

    def speculative(self, e):
        """Value of e if it can be evaluated without forking, raising or changing anything; else None."""
        ok, v = self.try_pure(lambda: self.eval(e))
        return (ok, v)

    def try_pure(self, thunk):
        outer = self.ex

        class Stop(BaseException):
            pass

        class PureEx:
            pc = outer.pc

            def choose(s, c):
                if isinstance(c, bool):
                    return c
                c = z3.simplify(c)
                if z3.is_true(c):
                    return True
                if z3.is_false(c):
                    return False
                raise Stop()

            sets = list(outer.sets)

            class taint:
                add = staticmethod(lambda why: (_ for _ in ()).throw(Stop()))

            def choose_n(s, cs):
                raise Stop()

            def assume(s, f):
                raise Stop()

            def feasible(s, f):
                return outer.feasible(f)
        snap = self.snapshot()
        cnt, nob = self.cnt, len(self.obls)
        self.ex = PureEx()
        try:
            v = thunk()
            ok = True
        except (Stop, PyExc, Unsupported, PathEnd):
            ok, v = False, None
        finally:
            self.ex = outer
            changed = None
        if ok:
            # effects are not allowed
            for f, vs in snap[0]:
                if any(f.vars.get(k, UNDEF) is not x for k, x in vs.items()):
                    changed = True
            for k, x in snap[1].items():
                y = self.heap.get(k)
                if isinstance(x, (list, dict)):
                    if isinstance(y, type(x)) and y == x:
                        continue
                    changed = True
                elif y is not x:
                    changed = True
        self.restore(snap)
        del self.obls[nob:]
        if changed:
            return False, None
        if not ok:
            self.cnt = max(self.cnt, cnt)
        return ok, v

    def ex_BoolOp(self, e):
        is_and = isinstance(e.op, ast.And)
        v = self.eval(e.values[0])
        for i, nx in enumerate(e.values[1:]):
            t = self.truth(v)
            if is_z3(t):
                ts = z3.simplify(t)
                t = True if z3.is_true(ts) else False if z3.is_false(ts) else t
            if isinstance(t, bool):
                if t != is_and:
                    return v
                v = self.eval(nx)
                continue
            if is_bool(v):
                ok, w = self.speculative(nx)
                if ok and is_bool(w):
                    v = band(v, w) if is_and else bor(v, w)
                    continue
            if self.choose(t):
                if not is_and:
                    return v if not is_bool(v) else True
            else:
                if is_and:
                    return v if not is_bool(v) else False
            v = self.eval(nx)
        return v

    def ex_UnaryOp(self, e):
        v = self.eval(e.operand)
        if isinstance(e.op, ast.Not):
            return bnot(self.truth(v))
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            if is_num(v):
                return -rv(v)
            return self.world.unop('-', v)
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported('unary operator')

    def ex_BinOp(self, e):
        return self.binop(e.op, self.eval(e.left), self.eval(e.right))

    def binop(self, op, a, b):
        on = type(op).__name__
        if hasattr(a, 'is_seg') or hasattr(b, 'is_seg') or \
                (self.kind_of(a) == 'str' and self.kind_of(b) == 'str'):
            if on == 'Add':
                if self.kind_of(a) == 'str' and self.kind_of(b) == 'str':
                    return self.str_add(a, b)
                self.raise_(TypeError)
        if isinstance(a, (int, float, str)) and isinstance(b, (int, float, str, tuple)) or isinstance(a, str) and isinstance(b, DictV):
            import operator as o
            f = {'Add': o.add, 'Sub': o.sub, 'Mult': o.mul, 'Div': o.truediv, 'FloorDiv': o.floordiv, 'Mod': o.mod,
                 'Pow': o.pow, 'BitOr': o.or_, 'BitAnd': o.and_}.get(on)
            if f is None:
                raise Unsupported('operator %s' % on)
            if on == 'Mod' and isinstance(a, str):
                if not (isinstance(b, (int, str, float)) or isinstance(b, tuple) and all(isinstance(x, (int, str, float)) for x in b)):
                    return self.opaque_str('mod', a, b)
            if on == 'Pow' and isinstance(b, int) and abs(b) > 10000:
                raise Unsupported('large power')
            try:
                return f(a, b)
            except Exception as x:
                self.raise_(type(x))
        if on == 'Mod' and self.kind_of(a) == 'str':
            return self.opaque_str('mod', a, b)
        if is_num(a) and is_num(b):
            x, y = rv(a), rv(b)
            if on == 'Add':
                return x + y
            if on == 'Sub':
                return x - y
            if on == 'Mult':
                return x * y
            if on == 'Div':
                if self.choose(y == 0):
                    self.raise_(ZeroDivisionError)
                return z3.ToReal(x) / (z3.ToReal(y) if y.is_int() else y) if x.is_int() else x / (z3.ToReal(y) if y.is_int() else y)
            if on in ('FloorDiv', 'Mod'):
                if self.choose(y == 0):
                    self.raise_(ZeroDivisionError)
                if x.is_int() and y.is_int():
                    # Python floor semantics; z3 div/mod agree for a positive divisor
                    if on == 'Mod':
                        return z3.If(y > 0, x % y, -((-x) % (-y)))
                    return z3.If(y > 0, x / y, (-x) / (-y))
                raise Unsupported('float //')
            if on == 'Pow':
                k = z3.simplify(y)
                if z3.is_int_value(k) and 0 <= k.as_long() <= 6:
                    r = z3.IntVal(1) if x.is_int() else z3.RealVal(1)
                    for _ in range(k.as_long()):
                        r = r * x
                    return r
                if x.is_int() and y.is_int():
                    return self.uf('ipow', INT, INT, INT)(x, y)
                return self.uf('rpow', REAL, REAL, REAL)(z3.ToReal(x) if x.is_int() else x, z3.ToReal(y) if y.is_int() else y)
            raise Unsupported('operator %s' % on)
        ka, kb = self.kind_of(a), self.kind_of(b)
        if on == 'Add' and ka == kb and ka in ('list', 'tuple'):
            ca, cb = self.items_of(a), self.items_of(b)
            if isinstance(ca, list) and isinstance(cb, list):
                return self.new_list(ca + cb) if ka == 'list' else tuple(ca + cb)
            s = self.concat(self.as_seq(a), self.as_seq(b), ka)
            return self.new_list(s) if ka == 'list' else s
        if on == 'Mult' and (ka in ('list', 'tuple') and is_int(b) or kb in ('list', 'tuple') and is_int(a)):
            s, n = (a, b) if ka in ('list', 'tuple') else (b, a)
            c = self.items_of(s)
            if isinstance(c, list):
                if isinstance(n, int):
                    return self.new_list(c * n) if self.kind_of(s) == 'list' else tuple(c * n)
                if len(c) == 1:
                    n = rv(n)
                    r = SeqV(self.kind_of(s), z3.If(n > 0, n, 0), lambda i: c[0])
                    return self.new_list(r) if self.kind_of(s) == 'list' else r
        if ka == 'set' and kb == 'set' and isinstance(a, SetV) and isinstance(b, SetV):
            if on == 'BitOr':
                return SetV(self.dedup(a.items + b.items))
            if on in ('BitAnd', 'Sub', 'BitXor'):
                both = [x for x in a.items if any(self.choose(zb(self.eq(x, y))) for y in b.items)]
                left = [x for x in a.items if not any(x is y for y in both)]
                if on == 'BitAnd':
                    return SetV(both)
                if on == 'Sub':
                    return SetV(left)
                return SetV(left + [y for y in b.items if not any(self.choose(zb(self.eq(x, y))) for x in both)])
        return self.world.binop(on, a, b)

    def ex_Compare(self, e):
        left = self.eval(e.left)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            if i > 0:
                t = self.truth(res)
                if not self.choose(t):
                    return res
            right = self.eval(r)
            c = self.compare(op, left, right)
            res = c if i == 0 else (c if not is_bool(c) or not is_bool(res) else band(res, c))
            left = right
        return res

    def compare(self, op, a, b):
        on = type(op).__name__
        if on == 'Is':
            return self.same(a, b)
        if on == 'IsNot':
            return bnot(self.same(a, b))
        if on in ('Eq', 'NotEq'):
            h = self.world.compare(on, a, b)
            if h is not None:
                return h
            r = self.eq(a, b)
            return r if on == 'Eq' else bnot(r)
        if on in ('In', 'NotIn'):
            r = self.contains(a, b)
            return r if on == 'In' else bnot(r)
        if is_num(a) and is_num(b):
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[on]
            x, y = rv(a), rv(b)
            return {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[on]
        if isinstance(a, str) and isinstance(b, str):
            return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[on]
        h = self.world.compare(on, a, b)
        if h is not None:
            return h
        if self.kind_of(a) == 'set' and self.kind_of(b) == 'set':
            return self.subset(a, b, on) if on in ('Lt', 'LtE') else self.subset(b, a, {'Gt': 'Lt', 'GtE': 'LtE'}[on])
        ka, kb = self.kind_of(a), self.kind_of(b)
        if ka == kb and ka in ('list', 'tuple'):
            ca, cb = self.items_of(a), self.items_of(b)
            if isinstance(ca, list) and isinstance(cb, list) and len(ca) + len(cb) <= 12:
                # lexicographic
                for x, y in zip(ca, cb):
                    if not self.choose(zb(self.eq(x, y))):
                        return self.compare(getattr(ast, on)(), x, y)
                return {'Lt': len(ca) < len(cb), 'LtE': len(ca) <= len(cb), 'Gt': len(ca) > len(cb), 'GtE': len(ca) >= len(cb)}[on]
        raise Unsupported('comparison %s of %r and %r' % (on, a, b))

    def subset(self, a, b, on='LtE'):
        if isinstance(a, SetV):
            r = band(*[self.contains(x, b) for x in a.items]) if a.items else True
            if on == 'Lt':
                r = band(r, bnot(self.eq(a, b)))
            return r
        if isinstance(a, SeqV) and isinstance(b, SeqV) and a.u is not None and b.u is not None:
            # strict inclusion: an uninterpreted strict order compatible with the sizes
            p = self.uf('strict_subset', U, U, BOOL)
            self.assume(z3.Not(z3.And(p(a.u, b.u), p(b.u, a.u))))
            self.assume(z3.Not(p(a.u, a.u)))
            self.assume(z3.Implies(p(a.u, b.u), z3.And(a.u != b.u, a.n < b.n)))
            return p(a.u, b.u) if on == 'Lt' else z3.Or(a.u == b.u, p(a.u, b.u))
        raise Unsupported('inclusion of %r in %r' % (a, b))

    def contains(self, x, c):
        if hasattr(c, 'sym_contains'):
            return c.sym_contains(self, x)
        h = self.world.contains(x, c)
        if h is not None:
            return h
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            if isinstance(x, Ob):
                # membership of an unknown string in a constant: decided character by character
                return self.uf('s_contains', U, U, BOOL)(self.lit(c), x.t)
            if hasattr(x, 'is_seg'):
                return x.sym_in_const(self, c)
        if isinstance(c, Ob) and c.ty == 'str':
            return self.uf('s_contains', U, U, BOOL)(c.t, self.to_u(x))
        if isinstance(c, DictV):
            d = self.heap[c.id]
            if isinstance(x, (str, int, bool, type(None))):
                if all(not (isinstance(k, tuple) and k and k[0] == 'ob') for k in d):
                    return x in d
            return bor(*[self.eq(x, k) for k in d if not (isinstance(k, tuple) and k and k[0] == 'ob')])
        items = self.iter_items(c) if not isinstance(c, Ob) else None
        if isinstance(items, list):
            return bor(*[self.eq(x, y) for y in items])
        if isinstance(items, SeqV):
            j = z3.Int('q!%d' % self.next())
            return z3.Exists([j], z3.And(j >= 0, j < items.n, zb(self.eq(x, items.get(j)))))
        raise Unsupported('in %r' % (c,))

    def ex_Attribute(self, e):
        return self.getattr(self.eval(e.value), e.attr)

    def getattr(self, o, name):
        if isinstance(o, ModV):
            if name in o.mod.vars:
                return self.module_var(o.mod, name)
            sub = self.src.get(o.mod.name + '.' + name)
            if sub:
                self.load_module(sub)
                return ModV(sub)
            self.raise_(AttributeError, name)
        if isinstance(o, ExtV):
            h = self.world.ext_attr(o.dotted, name)
            return h if h is not None else ExtV(o.dotted + '.' + name)
        h = self.world.getattr(o, name)
        if h is not None:
            return None if h is UNDEF else h
        if isinstance(o, (str, ListV, SetV, DictV, SeqV, tuple)) or isinstance(o, Ob) and o.ty == 'str' or hasattr(o, 'is_seg'):
            pt = {'str': str, 'list': list, 'set': set, 'dict': dict, 'tuple': tuple}.get(self.kind_of(o))
            if pt is not None and not hasattr(pt, name):
                self.raise_(AttributeError, '%s has no %s' % (pt.__name__, name))
            return MethV(o, name)
        if o is None or isinstance(o, (bool, int, float)) or is_z3(o):
            pt = type(None) if o is None else bool if is_bool(o) else int if is_int(o) else float
            if not hasattr(pt, name):
                self.raise_(AttributeError, name)
            return MethV(o, name)
        if isinstance(o, ExcV):
            if name == 'args':
                return tuple(o.args)
            return Ob(self.fresh(U, 'excattr'))
        if isinstance(o, (FuncV, BuiltinV, ClassV, Ob, HookV, PartialV)):
            return self.opaque_attr(o, name)
        return MethV(o, name)

    def opaque_attr(self, o, name):
        if isinstance(o, (BuiltinV, FuncV, ClassV)):
            if name in ('__name__', '__qualname__', '__module__'):
                return Ob(self.fresh(U, 'name'), 'str')
            return MethV(o, name)
        if isinstance(o, Ob) and o.ty is None:
            self.may_raise('attribute %s' % name)
            return MethV(o, name)
        return MethV(o, name)

    def ex_Subscript(self, e):
        o = self.eval(e.value)
        if isinstance(e.slice, ast.Slice):
            lo = self.eval(e.slice.lower) if e.slice.lower else None
            hi = self.eval(e.slice.upper) if e.slice.upper else None
            stp = self.eval(e.slice.step) if e.slice.step else None
            return self.slice(o, lo, hi, stp)
        return self.subscript(o, self.eval(e.slice))

    def ex_Slice(self, e):
        raise Unsupported('slice object')

    def slice(self, o, lo, hi, st):
        conc = all(x is None or isinstance(x, int) for x in (lo, hi, st))
        if hasattr(o, 'sym_slice'):
            return o.sym_slice(self, lo, hi, st)
        h = self.world.slice(o, lo, hi, st)
        if h is not None:
            return h
        if isinstance(o, str) and conc:
            return o[lo:hi:st]
        if isinstance(o, tuple) and conc:
            return o[lo:hi:st]
        if isinstance(o, ListV) and conc and isinstance(self.heap[o.id], list):
            return self.new_list(self.heap[o.id][lo:hi:st])
        if isinstance(o, Ob) and o.ty == 'str':
            return Ob(self.uf('s_slice', U, U, U, U, U)(o.t, self.to_u(lo), self.to_u(hi), self.to_u(st)), 'str')
        if isinstance(o, str):
            return Ob(self.uf('s_slice', U, U, U, U, U)(self.lit(o), self.to_u(lo), self.to_u(hi), self.to_u(st)), 'str')
        c = self.items_of(o)
        if (isinstance(c, SeqV) or isinstance(c, list)) and self.kind_of(o) in ('list', 'tuple'):
            s = self.as_seq(o)
            if st is None or st == 1:
                def norm(x, d):
                    if x is None:
                        return d
                    x = rv(x)
                    x = z3.If(x < 0, z3.If(x + s.n < 0, 0, x + s.n), z3.If(x > s.n, s.n, x))
                    return z3.simplify(x)
                a, b = norm(lo, z3.IntVal(0)), norm(hi, s.n)
                r = SeqV(self.kind_of(o), z3.simplify(z3.If(b > a, b - a, 0)), lambda i: s.get(z3.simplify(rv(i) + a)))
                return self.new_list(r) if self.kind_of(o) == 'list' else r
            if st == -1 and lo is None and hi is None:
                r = SeqV(self.kind_of(o), s.n, lambda i: s.get(z3.simplify(s.n - 1 - rv(i))))
                return self.new_list(r) if self.kind_of(o) == 'list' else r
        raise Unsupported('slice of %r' % (o,))

    def subscript(self, o, k):
        if hasattr(o, 'sym_index'):
            return o.sym_index(self, k)
        h = self.world.subscript(o, k)
        if h is not None:
            return None if h is UNDEF else h
        if isinstance(o, (str, tuple)) and isinstance(k, int):
            if not -len(o) <= k < len(o):
                self.raise_(IndexError)
            return o[k]
        if isinstance(o, DictV):
            d = self.heap[o.id]
            kk = self.dkey(k)
            if isinstance(k, (str, int, bool, type(None), tuple)) or isinstance(k, Ob):
                if kk in d:
                    return d[kk]
                if not isinstance(k, Ob) or not d:
                    self.raise_(KeyError)
            keys = [x for x in d if not (isinstance(x, tuple) and x and x[0] == 'ob')]
            for x in keys:
                if self.choose(self.eq(k, x)):
                    return d[x]
            self.raise_(KeyError)
        if isinstance(o, (ListV, SeqV, tuple)):
            c = self.items_of(o)
            if isinstance(c, list) and isinstance(k, int):
                if not -len(c) <= k < len(c):
                    self.raise_(IndexError)
                return c[k]
            if not is_int(k):
                self.raise_(TypeError)
            if self.kind_of(o) == 'set':
                self.raise_(TypeError, 'set index')
            s = self.as_seq(o)
            k = rv(k)
            if self.choose(z3.Or(k >= s.n, k < -s.n)):
                self.raise_(IndexError)
            ks = z3.simplify(k + s.n if self.choose(k < 0) else k)
            return s.get(ks)
        if isinstance(o, SetV) or o is None or is_num(o):
            self.raise_(TypeError, 'not subscriptable')
        if isinstance(o, Ob) and o.ty == 'str' or isinstance(o, str):
            if isinstance(o, Ob) and is_int(k):
                self.may_raise('index', self.uf('s_index_err', U, U, BOOL)(o.t, self.to_u(k)))
                return Ob(self.uf('s_char', U, U, U)(o.t, self.to_u(k)), 'str')
        raise Unsupported('subscript of %r' % (o,))

    # comprehensions become loops
    def comp(self, gens, emit):
        def go(i):
            if i == len(gens):
                return [emit]
            g = gens[i]
            inner = go(i + 1)
            for c in reversed(g.ifs):
                inner = [ast.If(test=c, body=inner, orelse=[])]
            return [ast.For(target=g.target, iter=g.iter, body=inner, orelse=[], lineno=0, col_offset=0)]
        return go(0)

    def in_comp_scope(self, fn):
        fr = self.frame()
        f = Frame(fr.module, fr, fr.qual + '.<comp>')
        self.frames.append(f)
        self.allframes.append(f)
        try:
            return fn(f)
        finally:
            self.frames.pop()

    def list_comp(self, e):
        def run(f):
            acc = self.new_list([])
            f.vars['.acc'] = acc
            call = ast.Expr(ast.Call(func=ast.Attribute(value=ast.Name(id='.acc', ctx=ast.Load()), attr='append', ctx=ast.Load()),
                                     args=[e.elt], keywords=[]))
            self.exec_block(self.comp(e.generators, call))
            return acc
        return self.in_comp_scope(run)

    def ex_ListComp(self, e):
        return self.list_comp(e)

    def ex_GeneratorExp(self, e):
        return self.list_comp(e)      # materialised; any/all over a generator are handled by call_anyall

    def ex_SetComp(self, e):
        l = self.list_comp(e)
        c = self.heap[l.id]
        if isinstance(c, list):
            return SetV(self.dedup(c))
        ln = self.fresh(INT, 'setlen')
        self.assume(z3.And(ln >= 0, ln <= c.n, (ln == 0) == (c.n == 0)))
        return SeqV('set', c.n, c.get, None, ln)

    def ex_DictComp(self, e):
        h = self.world.dict_comp(e)
        if h is not None:
            return h
        if len(e.generators) == 1 and not e.generators[0].ifs:
            g = e.generators[0]
            items = self.iter_items(self.eval(g.iter))
            if isinstance(items, list):
                def run(f):
                    d = {}
                    for x in items:
                        self.assign(g.target, x)
                        d[self.dkey(self.eval(e.key))] = self.eval(e.value)
                    return self.new_dict(d)
                return self.in_comp_scope(run)
            # evaluate the element once for an arbitrary index, for its effects (exceptions); the dict is opaque
            def run2(f):
                j = self.fresh(INT, 'dk')
                if self.choose(z3.And(j >= 0, j < items.n)):
                    self.assign(g.target, items.get(j))
                    self.eval(e.key)
                    self.eval(e.value)
            self.in_comp_scope(run2)
            return Ob(self.fresh(U, 'dict'), 'dict')
        raise Unsupported('dict comprehension')

    def any_all(self, e, is_any):
        """any/all over a generator: a loop with early exit."""
        g = e.args[0]

        def run(f):
            res = ast.Assign(targets=[ast.Name(id='.r', ctx=ast.Store())], value=ast.Constant(is_any))
            test = g.elt if is_any else ast.UnaryOp(op=ast.Not(), operand=g.elt)
            f.vars['.r'] = not is_any
            f.vars['.done'] = False
            # only a single for clause can be left by break
            gens = g.generators
            if len(gens) == 1:
                body = [ast.If(test=test, body=[res, ast.Break()], orelse=[])]
                gg = gens[0]
                for c in reversed(gg.ifs):
                    body = [ast.If(test=c, body=body, orelse=[])]
                self.exec_block([ast.For(target=gg.target, iter=gg.iter, body=body, orelse=[], lineno=0, col_offset=0)])
                return f.vars['.r']
            fn = ast.FunctionDef(name='.anyall', args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                 body=self.comp(gens, ast.If(test=test, body=[ast.Return(ast.Constant(is_any))], orelse=[]))
                                 + [ast.Return(ast.Constant(not is_any))], decorator_list=[])
            fv = FuncV(fn, f.module, f, '.anyall', [], [], f.qual + '.anyall')
            return self.call(fv, [], {})
        return self.in_comp_scope(run)

    def ex_Call(self, e):
        if isinstance(e.func, ast.Name) and e.func.id in ('any', 'all') and len(e.args) == 1 and isinstance(e.args[0], ast.GeneratorExp):
            f = self.lookup(e.func.id)
            if isinstance(f, BuiltinV):
                return self.any_all(e, e.func.id == 'any')
        f = self.eval(e.func)
        args = self.elts(e.args)
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value)
            if k.arg is None:
                if isinstance(v, DictV):
                    kw.update(self.heap[v.id])
                else:
                    raise Unsupported('** argument')
            else:
                kw[k.arg] = v
        return self.call(f, args, kw)

    def ex_Starred(self, e):
        raise Unsupported('starred')

    # ---------------------------------------------------------------- calls
    def bind(self, f, args, kw):
        a = f.node.args
        if a.posonlyargs:
            names = [x.arg for x in a.posonlyargs + a.args]
        else:
            names = [x.arg for x in a.args]
        out = {}
        if any(isinstance(x, StarSeq) for x in args):
            raise Unsupported('*sequence of unknown length passed to %s' % f.qual)
        if len(args) > len(names):
            if a.vararg is None:
                self.raise_(TypeError, 'too many arguments to %s' % f.name)
            out[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            out[a.vararg.arg] = ()
        for n, v in zip(names, args):
            out[n] = v
        konly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in out and k in names:
                self.raise_(TypeError, 'duplicate argument %s' % k)
            if k in names or k in konly:
                out[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.raise_(TypeError, 'unexpected keyword %s' % k)
        if a.kwarg is not None:
            out[a.kwarg.arg] = self.new_dict(extra)
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in out:
                di = i - (len(names) - nd)
                if di < 0:
                    self.raise_(TypeError, 'missing argument %s' % n)
                out[n] = f.defaults[di]
        for n, d in zip(konly, f.kwdefaults):
            if n not in out:
                if d is UNDEF:
                    self.raise_(TypeError, 'missing argument %s' % n)
                out[n] = d
        return out, names

    def call(self, f, args, kw):
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw)
        if isinstance(f, HookV):
            return f.fn(self, args, kw)
        if isinstance(f, DecoratorV):
            return f.wrap(self, args[0])
        if isinstance(f, PartialV):
            k = dict(f.kw)
            k.update(kw)
            return self.call(f.fn, list(f.args) + list(args), k)
        if isinstance(f, BuiltinV):
            from .builtins_ import call_builtin
            return call_builtin(self, f.name, args, kw)
        if isinstance(f, MethV):
            from .builtins_ import call_method
            return call_method(self, f.recv, f.name, args, kw)
        if isinstance(f, ExtV):
            return self.call_ext(f.dotted, args, kw)
        if isinstance(f, ClassV):
            h = self.world.construct(f, args, kw)
            if h is not None:
                return h
            raise Unsupported('construction of %s' % f.name)
        if isinstance(f, Ob):
            h = self.world.call_ob(f, args, kw)
            if h is not None:
                return None if h is UNDEF else h
            self.may_raise('call of an unknown object')
            return Ob(self.fresh(U, 'r'))
        if f is None or is_num(f) or isinstance(f, (str, tuple)):
            self.raise_(TypeError, 'not callable')
        raise Unsupported('call of %r' % (f,))

    def call_ext(self, dotted, args, kw):
        from .builtins_ import call_ext
        return call_ext(self, dotted, args, kw)

    def call_func(self, f, args, kw, use_contract=True):
        if use_contract:
            c = self.world.contract(f.qual)
            if c is not None:
                env, names = self.bind(f, args, kw)
                self.world.used(f.qual)
                return c.call(self, env, names)
        h = self.world.func_override(f, args, kw)
        if h is not None:
            return None if h is UNDEF else h
        env, names = self.bind(f, args, kw)
        if self.depth > MAX_INLINE:
            raise Unsupported('inlining too deep at %s (recursion without a contract)' % f.qual)
        if any(fr.qual == f.qual and getattr(fr, 'fnode', None) is f.node for fr in self.frames) and not self.world.allow_recursion(f.qual):
            raise Unsupported('recursion without a contract: %s' % f.qual)
        self.inlined.add(f.qual)
        fr = Frame(f.module, f.closure, f.qual)
        fr.fnode = f.node
        # locals assigned in the body are unbound until assigned
        fr.vars.update(env)
        node = f.node
        if not isinstance(node, ast.Lambda):
            for n in local_names(node):
                fr.vars.setdefault(n, UNDEF)
        self.frames.append(fr)
        self.allframes.append(fr)
        self.depth += 1
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body)
            for n in ast.walk(node):
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    raise Unsupported('generator function %s' % f.qual)
            try:
                self.exec_block(node.body)
                return None
            except RetSig as r:
                return r.value
        finally:
            self.depth -= 1
            self.frames.pop()

    def list_extend(self, lst, other):
        c = self.heap[lst.id]
        o = self.iter_items(other)
        if isinstance(c, list) and isinstance(o, list):
            self.heap[lst.id] = c + o
        else:
            self.heap[lst.id] = self.concat(self.as_seq(lst), o if isinstance(o, SeqV) else self.as_seq(tuple(o)), 'list')


_locals_cache = {}


def local_names(node):
    k = id(node)
    if k in _locals_cache and _locals_cache[k][0] is node:
        return _locals_cache[k][1]
    out, skip = set(), set()

    def walk(n, top=False):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) and not top:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            skip.update(n.names)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        for c in ast.iter_child_nodes(n):
            walk(c)
    walk(node, True)
    r = out - skip
    _locals_cache[k] = (node, r)
    return r
