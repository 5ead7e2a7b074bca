"""Python's built-in functions, methods of built-in types, and calls of external names."""
import builtins as _bi
import re as _re

import z3

from .values import *
from . import engine as E
from .engine import rv, zb, band, bor, bnot

PURE_CONC = (str, int, float, bool, type(None), bytes)


def conc(v):
    return isinstance(v, PURE_CONC) or isinstance(v, tuple) and all(conc(x) for x in v)


def type_name_match(I, v, t):
    """isinstance(v, t) for a built-in type name, or None when unknown."""
    k = I.kind_of(v)
    if k is not None:
        if t == 'object':
            return True
        if t == 'int':
            return k in ('int', 'bool')
        if t == 'float':
            return k == 'float'
        if t in ('str', 'list', 'tuple', 'set', 'dict', 'bool', 'bytes'):
            return k == t
        if t in ('complex', 'frozenset', 'type', 'Exception', 'BaseException'):
            return False
        return None
    if isinstance(v, Ob):
        if v.ty is not None and t in ('str', 'list', 'tuple', 'set', 'dict', 'int', 'float', 'bool'):
            return v.ty == t
        if t == 'object':
            return True
        return None
    if isinstance(v, (FuncV, BuiltinV, ExtV, ClassV, HookV, PartialV)):
        return False
    return None


def is_instance(I, v, t):
    if isinstance(t, tuple):
        return bor(*[is_instance(I, v, x) for x in t])
    h = I.world.isinstance(v, t)
    if h is not None:
        return h
    if isinstance(t, BuiltinV):
        r = type_name_match(I, v, t.name)
        if r is not None:
            return r
        if isinstance(v, ExcV) and v.cls is not None:
            return issubclass(v.cls, getattr(_bi, t.name))
    if isinstance(v, Ob) and isinstance(t, (BuiltinV, ExtV, ClassV)):
        return I.uf('isinstance:' + (t.dotted if isinstance(t, ExtV) else t.name), U, BOOL)(v.t)
    if isinstance(t, ExtV):
        if I.kind_of(v) is not None:
            return False
    if isinstance(t, ClassV):
        return False
    raise Unsupported('isinstance(%r, %r)' % (v, t))


def length(I, v):
    if hasattr(v, 'sym_len'):
        return v.sym_len(I)
    h = I.world.length(v)
    if h is not None:
        return h
    if isinstance(v, (str, tuple, bytes)):
        return len(v)
    if isinstance(v, SetV):
        items = v.items
        if len(items) <= 1:
            return len(items)
        if all(isinstance(x, (str, int)) for x in items):
            return len(set(items))
        if all(isinstance(x, Ob) or conc(x) for x in items):
            # number of distinct elements
            tot = z3.IntVal(0)
            for i, x in enumerate(items):
                dup = bor(*[I.eq(x, y) for y in items[:i]])
                tot = tot + z3.If(zb(dup), 0, 1)
            return z3.simplify(tot)
        return len(I.enum_set(v))
    if isinstance(v, (ListV, SeqV, DictV)):
        c = I.items_of(v)
        if isinstance(c, SeqV) and c.ln is not None:
            return c.ln
        return len(c) if isinstance(c, list) else c.n
    if isinstance(v, Ob):
        if v.ty == 'str':
            n = I.uf('s_len', U, INT)(v.t)
            I.assume(n >= 0)
            I.assume((n == 0) == (v.t == I.lit('')))
            return n
        if v.ty is None:
            I.may_raise('len')
            n = I.uf('o_len', U, INT)(v.t)
            I.assume(n >= 0)
            return n
        if v.ty in ('list', 'dict', 'tuple', 'set'):
            n = I.uf('o_len', U, INT)(v.t)
            I.assume(n >= 0)
            return n
    if v is None or is_num(v) or I.world.no_len(v):
        I.raise_(TypeError, 'len')
    raise Unsupported('len(%r)' % (v,))


def call_builtin(I, name, args, kw):
    if any(isinstance(a, StarSeq) for a in args) and name not in ('print', 'zip'):
        raise Unsupported('*args to %s' % name)
    h = I.world.builtin(name, args, kw)
    if h is not None:
        return None if h is UNDEF else h
    cls = getattr(_bi, name, None)
    if isinstance(cls, type) and issubclass(cls, BaseException):
        return ExcV(cls, tuple(args), 'raised by the program')
    if name == 'print':
        for a in args:
            if isinstance(a, Poison):
                raise Unsupported(a.why)
        I.world.on_print(args)
        return None
    if name == 'len':
        return length(I, args[0])
    if name == 'isinstance':
        return is_instance(I, args[0], args[1])
    if name == 'issubclass':
        return I.fresh(BOOL, 'issubclass')
    if name == 'type':
        k = I.kind_of(args[0])
        if k is not None:
            return BuiltinV(k)
        if isinstance(args[0], ExcV) and args[0].cls is not None:
            return BuiltinV(args[0].cls.__name__)
        if isinstance(args[0], Ob):
            return Ob(I.uf('type_of', U, U)(args[0].t), 'type')
        return Ob(I.fresh(U, 'type'), 'type')
    if name == 'bool':
        return I.truth(args[0]) if args else False
    if name in ('str', 'repr'):
        if not args:
            return ''
        v = args[0]
        if name == 'repr' and isinstance(v, (str, int, float, bool)):
            return repr(v)
        return I.to_str(v)
    if name == 'abs':
        v = args[0]
        if isinstance(v, (int, float)):
            return abs(v)
        if is_num(v):
            v = rv(v)
            return z3.If(v >= 0, v, -v)
        if isinstance(v, (str, tuple, ListV, SetV)) or v is None:
            I.raise_(TypeError)
        return I.world.unop('abs', v)
    if name in ('max', 'min'):
        vs = args if len(args) > 1 else I.iter_items(args[0])
        if isinstance(vs, list) and vs and all(isinstance(x, (int, float)) for x in vs) and not kw:
            return max(vs) if name == 'max' else min(vs)
        if isinstance(vs, list) and vs and all(is_num(x) for x in vs) and not kw:
            r = rv(vs[0])
            for x in vs[1:]:
                x = rv(x)
                r = z3.If(x > r if name == 'max' else x < r, x, r)
            return r
        if isinstance(vs, SeqV):
            if I.choose(vs.n == 0):
                if 'default' in kw:
                    return kw['default']
                I.raise_(ValueError, 'max of an empty sequence')
            i = I.fresh(INT, 'argmax')
            if kw or not is_num(vs.get(i)):
                # an element that no other one precedes: any element, for all that is known of the order
                I.assume(z3.And(i >= 0, i < vs.n))
                if kw:
                    I.taint('min/max by key')
                return vs.get(i)
            m = I.fresh(INT, 'max')
            q = z3.Int('q!%d' % I.next())
            I.assume(z3.And(i >= 0, i < vs.n, rv(vs.get(i)) == m))
            e = rv(vs.get(q))
            I.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < vs.n), (e <= m) if name == 'max' else (e >= m))))
            return m
        if isinstance(vs, list) and vs and set(kw) <= {'key', 'default'} and \
                all(isinstance(x, str) or isinstance(x, Ob) and x.ty == 'str' for x in vs):
            if kw:
                I.taint('min/max by key')
            for x in vs[:-1]:
                if I.choose(I.fresh(BOOL, 'comes_first')):
                    return x
            return vs[-1]
        raise Unsupported(name)
    if name == 'int':
        if not args:
            return 0
        v = args[0]
        if isinstance(v, (str, int, float)):
            try:
                return int(*args) if all(conc(a) for a in args) else I.world.builtin_int(v)
            except Exception as x:
                I.raise_(type(x))
        if is_bool(v):
            return rv(v)
        if is_int(v):
            return v
        if is_real(v):
            r = rv(v)
            return z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))
        if v is None or isinstance(v, (tuple, ListV, SetV)):
            I.raise_(TypeError)
        if isinstance(v, Ob) and v.ty == 'str':
            if I.choose(I.uf('int_err', U, BOOL)(v.t)):
                I.raise_(ValueError, 'int()')
            return I.uf('s_int', U, INT)(v.t)
        if isinstance(v, Ob):
            I.may_raise('int()', I.uf('int_err', U, BOOL)(v.t))
            return I.uf('s_int', U, INT)(v.t)
        raise Unsupported('int(%r)' % (v,))
    if name == 'float':
        v = args[0]
        if isinstance(v, (str, int, float)):
            try:
                return float(v)
            except Exception as x:
                I.raise_(type(x))
        if is_num(v):
            return z3.ToReal(rv(v)) if is_int(v) or is_bool(v) else v
        if isinstance(v, Ob):
            if v.ty == 'str':
                if I.choose(I.uf('float_err', U, BOOL)(v.t)):
                    I.raise_(ValueError, 'float()')
            else:
                I.may_raise('float()', I.uf('float_err', U, BOOL)(v.t))
            return I.uf('s_float', U, REAL)(v.t)
        if v is None or isinstance(v, (tuple, ListV, SetV, DictV)):
            I.raise_(TypeError)
        raise Unsupported('float(%r)' % (v,))
    if name == 'round':
        v = args[0]
        if isinstance(v, (int, float)) and len(args) == 1:
            try:
                return round(v)
            except Exception as x:
                I.raise_(type(x))
        if is_int(v):
            return v
        if is_real(v) and len(args) == 1:
            r = rv(v)
            i = I.fresh(INT, 'round')
            x = z3.ToReal(i)
            I.assume(z3.And(2 * x - 2 * r <= 1, 2 * r - 2 * x <= 1))
            I.assume(z3.Implies(z3.Or(2 * x - 2 * r == 1, 2 * r - 2 * x == 1), i % 2 == 0))
            for y, q in getattr(I.ex, 'rounds', ()):
                # integers that differ are at least half a unit away from what was rounded to the other one
                I.assume(z3.Or(x == y, z3.And(z3.Or(2 * x - 2 * q >= 1, 2 * q - 2 * x >= 1), z3.Or(2 * y - 2 * r >= 1, 2 * r - 2 * y >= 1))))
            if I.ex is not None:
                I.ex.rounds.append((x, r))
            return i
        if is_real(v) and len(args) == 2 and isinstance(args[1], int) and 0 <= args[1] <= 30:
            i = I.fresh(INT, 'round')
            x, r = z3.ToReal(i), rv(v) * 10 ** args[1]
            I.assume(z3.And(2 * x - 2 * r <= 1, 2 * r - 2 * x <= 1))
            return x / z3.RealVal(10 ** args[1])
        if isinstance(v, Ob):
            I.may_raise('round()')
            return I.fresh(INT, 'round')
        raise Unsupported('round')
    if name == 'range':
        a = [0, None, 1]
        if len(args) == 1:
            a[1] = args[0]
        else:
            a[:len(args)] = args
        if all(isinstance(x, int) for x in a):
            if abs(a[1] - a[0]) > 3000:
                raise Unsupported('range of %d' % a[1])
            return SeqLike(I, [x for x in range(*a)])
        for x in a:
            if not is_int(x):
                I.raise_(TypeError, 'range')
        lo, hi, st = a
        if st == 1:
            n = z3.simplify(z3.If(rv(hi) > rv(lo), rv(hi) - rv(lo), 0))
            return SeqV('range', n, lambda i: z3.simplify(rv(lo) + rv(i)))
        if st == -1:
            n = z3.simplify(z3.If(rv(lo) > rv(hi), rv(lo) - rv(hi), 0))
            return SeqV('range', n, lambda i: z3.simplify(rv(lo) - rv(i)))
        if isinstance(st, int) and st > 0:
            d = rv(hi) - rv(lo)
            n = z3.simplify(z3.If(d > 0, (d + st - 1) / st, 0))
            return SeqV('range', n, lambda i: z3.simplify(rv(lo) + st * rv(i)))
        raise Unsupported('range step')
    if name == 'enumerate':
        start = args[1] if len(args) > 1 else kw.get('start', 0)
        items = I.iter_items(args[0])
        if isinstance(items, list):
            return tuple((E_add(start, i), x) for i, x in enumerate(items))
        return SeqV('iter', items.n, lambda i: (z3.simplify(rv(i) + rv(start)), items.get(i)))
    if name == 'zip':
        ss = [I.iter_items(a.seq if isinstance(a, StarSeq) else a) for a in args]
        if any(isinstance(a, StarSeq) for a in args):
            raise Unsupported('zip(*seq)')
        if all(isinstance(s, list) for s in ss):
            return tuple(zip(*ss))
        qs = [s if isinstance(s, SeqV) else I.as_seq(tuple(s)) for s in ss]
        n = rv(qs[0].n)
        for s in qs[1:]:
            n = z3.If(rv(s.n) < n, rv(s.n), n)
        if kw.get('strict'):
            raise Unsupported('zip strict')
        return SeqV('iter', z3.simplify(n), lambda i: tuple(s.get(i) for s in qs))
    if name == 'reversed':
        items = I.iter_items(args[0])
        if isinstance(items, list):
            return tuple(reversed(items))
        return SeqV('iter', items.n, lambda i: items.get(z3.simplify(items.n - 1 - rv(i))))
    if name in ('list', 'tuple'):
        if not args:
            return I.new_list([]) if name == 'list' else ()
        if isinstance(args[0], Ob) and I.world.iterate(args[0]) is None:
            I.may_raise(name + '()')
            n = I.fresh(INT, 'n')
            I.assume(n >= 0)
            f = I.fresh(U, 'conv')
            r = SeqV(name, n, lambda i: Ob(I.uf('item', U, INT, U)(f, rv(i))))
            return I.new_list(r) if name == 'list' else r
        items = I.iter_items(args[0])
        if isinstance(items, list):
            return I.new_list(list(items)) if name == 'list' else tuple(items)
        s = SeqV(name, items.n, items.get, items.u if I.kind_of(args[0]) == name else None)
        return I.new_list(s) if name == 'list' else s
    if name == 'set' or name == 'frozenset':
        if not args:
            return SetV([])
        items = I.iter_items(args[0])
        if isinstance(items, list):
            return SetV(I.dedup(items))
        return I.world.make_set(items)
    if name == 'dict':
        if not args and not kw:
            return I.new_dict({})
        if len(args) == 1 and isinstance(args[0], DictV):
            d = dict(I.heap[args[0].id])
            d.update(kw)
            return I.new_dict(d)
        if not args:
            return I.new_dict(dict(kw))
        raise Unsupported('dict()')
    if name in ('any', 'all'):
        items = I.iter_items(args[0])
        if isinstance(items, list):
            for x in items:
                t = I.truth(x)
                if name == 'any':
                    if I.choose(t):
                        return True
                elif not I.choose(t):
                    return False
            return name == 'all'
        q = z3.Int('q!%d' % I.next())
        t = zb(I.truth(items.get(q)))
        rng = z3.And(q >= 0, q < items.n)
        return z3.Exists([q], z3.And(rng, t)) if name == 'any' else z3.ForAll([q], z3.Implies(rng, t))
    if name == 'sum':
        items = I.iter_items(args[0])
        if isinstance(items, list):
            r = args[1] if len(args) > 1 else kw.get('start', 0)
            import ast
            for x in items:
                r = I.binop(ast.Add(), r, x)
            return r
        return I.world.fold('sum', items, args[1] if len(args) > 1 else 0)
    if name == 'sorted':
        items = I.iter_items(args[0])
        if isinstance(items, list) and all(isinstance(x, str) for x in items) and not kw:
            return I.new_list(sorted(items))
        if isinstance(items, list) and len(items) <= 5 and set(kw) <= {'key', 'reverse'} and isinstance(kw.get('reverse', False), bool):
            return I.new_list(insertion_sort(I, items, kw.get('key'), kw.get('reverse', False)))
        return I.world.sorted(items, kw)
    if name == 'map':
        f = args[0]
        if len(args) == 2:
            items = I.iter_items(args[1])
            if isinstance(items, list):
                return tuple(I.call(f, [x], {}) for x in items)
            # as a list comprehension
            import ast
            fr = I.frame()
            nf = E.Frame(fr.module, fr, fr.qual + '.<map>')
            I.frames.append(nf)
            I.allframes.append(nf)
            try:
                nf.vars['.f'] = f
                nf.vars['.it'] = args[1]
                acc = I.new_list([])
                nf.vars['.acc'] = acc
                x = ast.Name(id='.x', ctx=ast.Store())
                body = ast.Expr(ast.Call(func=ast.Attribute(value=ast.Name(id='.acc', ctx=ast.Load()), attr='append', ctx=ast.Load()),
                                         args=[ast.Call(func=ast.Name(id='.f', ctx=ast.Load()), args=[ast.Name(id='.x', ctx=ast.Load())], keywords=[])], keywords=[]))
                I.exec_block([ast.For(target=x, iter=ast.Name(id='.it', ctx=ast.Load()), body=[body], orelse=[], lineno=0, col_offset=0)])
                return acc
            finally:
                I.frames.pop()
        raise Unsupported('map')
    if name == 'filter':
        items = I.iter_items(args[1])
        if isinstance(items, list):
            out = []
            for x in items:
                if I.choose(I.truth(x if args[0] is None else I.call(args[0], [x], {}))):
                    out.append(x)
            return tuple(out)
        raise Unsupported('filter')
    if name in ('hasattr', 'getattr'):
        o, a = args[0], args[1]
        if not isinstance(a, str):
            raise Unsupported('%s with a computed name' % name)
        try:
            v = I.getattr(o, a)
        except PyExc as e:
            if e.exc.cls is None or issubclass(e.exc.cls, AttributeError):
                if name == 'hasattr':
                    return False
                if len(args) > 2:
                    return args[2]
            raise
        return True if name == 'hasattr' else v
    if name == 'callable':
        return isinstance(args[0], (FuncV, BuiltinV, ExtV, HookV, PartialV, MethV))
    if name == 'id':
        return I.fresh(INT, 'id')
    if name == 'object':
        return Ob(I.fresh(U, 'object'))
    if name in ('ord', 'chr', 'divmod', 'pow', 'hash') and all(conc(a) for a in args):
        try:
            return getattr(_bi, name)(*args)
        except Exception as x:
            I.raise_(type(x))
    if name == 'pow' and len(args) == 2:
        import ast
        return I.binop(ast.Pow(), args[0], args[1])
    if name == 'globals':
        raise Unsupported('globals()')
    if name == 'divmod' and len(args) == 2 and not kw:
        import ast
        return (I.binop(ast.FloorDiv(), *args), I.binop(ast.Mod(), *args))
    if name == 'next' and not kw and isinstance(args[0], tuple):
        # a generator expression or iter(), used once
        if args[0]:
            return args[0][0]
        if len(args) == 2:
            return args[1]
        I.raise_(StopIteration)
    if name == 'next':
        raise Unsupported('next()')
    if name == 'iter':
        return args[0]
    raise Unsupported('builtin %s' % name)


def insertion_sort(I, items, key, reverse):
    """sorted() of a short list: stable, forks on the comparisons."""
    import ast
    out = []
    for x in items:
        k = x if key is None else I.call(key, [x], {})
        i = len(out)
        while i > 0:
            c = I.compare(ast.Lt(), out[i - 1][0], k) if reverse else I.compare(ast.Lt(), k, out[i - 1][0])
            if not I.choose(I.truth(c)):
                break
            i -= 1
        out.insert(i, (k, x))
    return [x for k, x in out]


def sum_loop(I, items, start):
    """sum() as the loop it is."""
    import ast
    fr = I.frame()
    nf = E.Frame(fr.module, fr, fr.qual + '.<sum>')
    I.frames.append(nf)
    I.allframes.append(nf)
    try:
        nf.vars['.it'] = items
        nf.vars['.tot'] = start
        body = ast.AugAssign(target=ast.Name(id='.tot', ctx=ast.Store()), op=ast.Add(), value=ast.Name(id='.x', ctx=ast.Load()))
        I.exec_block([ast.For(target=ast.Name(id='.x', ctx=ast.Store()), iter=ast.Name(id='.it', ctx=ast.Load()), body=[body], orelse=[], lineno=0, col_offset=0)])
        return nf.vars['.tot']
    finally:
        I.frames.pop()


def E_add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    return z3.simplify(rv(a) + rv(b))


def SeqLike(I, items):
    return tuple(items)


LIST_MUT = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse'}


def call_method(I, o, name, args, kw):
    if hasattr(o, 'sym_method'):
        r = o.sym_method(I, name, args, kw)
        if r is not None:
            return None if r is UNDEF else r
    h = I.world.method(o, name, args, kw)
    if h is not None:
        return None if h is UNDEF else h
    k = I.kind_of(o)
    if isinstance(o, str) or k == 'str':
        return str_method(I, o, name, args, kw)
    if isinstance(o, ListV):
        return list_method(I, o, name, args, kw)
    if isinstance(o, DictV):
        d = I.heap[o.id]
        sym = any(isinstance(x, tuple) and x and x[0] == 'ob' for x in d)
        if name == 'items':
            return tuple((x, v) for x, v in d.items())
        if name == 'keys':
            return tuple(d.keys())
        if name == 'values':
            return tuple(d.values())
        if name == 'get':
            key = args[0]
            dflt = args[1] if len(args) > 1 else kw.get('default')
            if conc(key) and not sym:
                return d.get(key, dflt)
            if isinstance(key, Ob) or I.kind_of(key) is not None:
                for x in d:
                    if not (isinstance(x, tuple) and x and x[0] == 'ob'):
                        if I.choose(I.eq(key, x)):
                            return d[x]
                return dflt
        if name == 'copy':
            return I.new_dict(dict(d))
        if name == 'update' and len(args) == 1 and isinstance(args[0], DictV):
            d = dict(d)
            d.update(I.heap[args[0].id])
            I.heap[o.id] = d
            return None
        if name == 'setdefault' and conc(args[0]):
            if args[0] in d:
                return d[args[0]]
            d = dict(d)
            d[args[0]] = args[1] if len(args) > 1 else None
            I.heap[o.id] = d
            return d[args[0]]
        if name == 'pop' and conc(args[0]) and not sym:
            if args[0] in d:
                d = dict(d)
                v = d.pop(args[0])
                I.heap[o.id] = d
                return v
            if len(args) > 1:
                return args[1]
            I.raise_(KeyError)
        if name == 'clear':
            I.heap[o.id] = {}
            return None
        raise Unsupported('dict.%s' % name)
    if isinstance(o, (SetV,)):
        if name == 'pop':
            if not o.items:
                I.raise_(KeyError)
            if len(o.items) == 1:
                return o.items[0]
            i = I.choose_n([I.fresh(BOOL, 'pick') for _ in o.items])
            return o.items[i]
        if name == 'copy':
            return SetV(o.items)
        if name == 'union':
            out = list(o.items)
            for a in args:
                x = I.iter_items(a)
                if not isinstance(x, list):
                    raise Unsupported('set.union')
                out += x
            return SetV(I.dedup(out))
        raise Unsupported('set.%s' % name)
    if isinstance(o, SeqV):
        if name in LIST_MUT and not (name == 'pop' and o.kind == 'set'):
            raise Unsupported('mutation of a sequence value')
        if name == 'copy':
            return o
        if name == 'index' or name == 'count':
            raise Unsupported('sequence.%s' % name)
        if name == 'pop' and o.kind == 'set':
            if I.choose(o.n == 0):
                I.raise_(KeyError)
            i = I.fresh(INT, 'pop')
            I.assume(z3.And(i >= 0, i < o.n))
            return o.get(i)
    if isinstance(o, tuple):
        if name == 'index' and all(conc(x) for x in o) and conc(args[0]):
            if args[0] in o:
                return o.index(args[0])
            I.raise_(ValueError)
        if name == 'count' and all(conc(x) for x in o) and conc(args[0]):
            return o.count(args[0])
        raise Unsupported('tuple.%s' % name)
    if isinstance(o, (int, float)) and all(conc(a) for a in args):
        try:
            return getattr(o, name)(*args)
        except Exception as x:
            I.raise_(type(x))
    if isinstance(o, Ob):
        h = I.world.ob_method(o, name, args, kw)
        if h is not None:
            return None if h is UNDEF else h
        I.external['method .%s' % name] = 'havoc, may raise'
        I.taint('method .%s' % name)
        I.may_raise('method %s' % name)
        return Ob(I.fresh(U, 'm_' + name))
    if isinstance(o, ExtV):
        return call_ext(I, o.dotted + '.' + name, args, kw)
    if is_num(o):
        if name == 'is_integer':
            return z3.IsInt(rv(o)) if is_real(o) else True
    raise Unsupported('method %s of %r' % (name, o))


def list_method(I, o, name, args, kw):
    c = I.heap[o.id]
    if name == 'append':
        if isinstance(c, list):
            I.heap[o.id] = c + [args[0]]
        else:
            I.heap[o.id] = I.concat(c, I.as_seq((args[0],)), 'list')
        return None
    if name == 'extend':
        I.list_extend(o, args[0])
        return None
    if name == 'copy':
        return I.new_list(list(c) if isinstance(c, list) else c)
    if name == 'clear':
        I.heap[o.id] = []
        return None
    if name == 'reverse':
        if isinstance(c, list):
            I.heap[o.id] = list(reversed(c))
        else:
            I.heap[o.id] = SeqV('list', c.n, lambda i: c.get(z3.simplify(c.n - 1 - rv(i))))
        return None
    if isinstance(c, list):
        if name == 'pop':
            i = args[0] if args else -1
            if isinstance(i, int):
                if not -len(c) <= i < len(c):
                    I.raise_(IndexError)
                c = list(c)
                v = c.pop(i)
                I.heap[o.id] = c
                return v
        if name == 'insert' and isinstance(args[0], int):
            c = list(c)
            c.insert(args[0], args[1])
            I.heap[o.id] = c
            return None
        if name == 'index':
            for i, x in enumerate(c):
                if I.choose(I.eq(x, args[0])):
                    return i
            I.raise_(ValueError)
        if name == 'remove':
            for i, x in enumerate(c):
                if I.choose(I.eq(x, args[0])):
                    I.heap[o.id] = c[:i] + c[i + 1:]
                    return None
            I.raise_(ValueError)
        if name == 'count':
            tot = 0
            for x in c:
                e = I.eq(x, args[0])
                tot = tot + (int(e) if isinstance(e, bool) else z3.If(e, z3.IntVal(1), z3.IntVal(0)))
            return tot
        if name == 'sort':
            if all(isinstance(x, str) for x in c) and not kw:
                I.heap[o.id] = sorted(c)
                return None
    else:
        if name == 'pop' and not args:
            if I.choose(c.n == 0):
                I.raise_(IndexError)
            parts = I.parts_of(c)
            v = c.get(z3.simplify(c.n - 1))
            I.heap[o.id] = SeqV('list', z3.simplify(c.n - 1), c.get)
            return v
        if name == 'pop' and is_int(args[0]):
            i = rv(args[0])
            if I.choose(z3.Or(i >= c.n, i < -c.n)):
                I.raise_(IndexError)
            i = z3.simplify(z3.If(i < 0, i + c.n, i))
            v = c.get(i)

            def get(q):
                q = rv(q)
                return I.ite(q < i, c.get(q), lambda: c.get(q + 1))
            I.heap[o.id] = SeqV('list', z3.simplify(c.n - 1), get)
            return v
    raise Unsupported('list.%s' % name)


STR_BOOL = {'startswith', 'endswith', 'isalpha', 'isdigit', 'isspace', 'isnumeric', 'isalnum', 'isupper', 'islower', 'isdecimal'}
STR_STR = {'strip', 'lstrip', 'rstrip', 'replace', 'lower', 'upper', 'format', 'title', 'capitalize', 'removeprefix', 'removesuffix',
           'zfill', 'ljust', 'rjust', 'casefold', 'translate'}
STR_INT = {'find', 'rfind', 'count'}


def str_method(I, o, name, args, kw):
    if isinstance(o, str) and all(conc(a) for a in args) and all(conc(a) for a in kw.values()):
        try:
            r = getattr(o, name)(*args, **kw)
        except Exception as x:
            I.raise_(type(x))
        if isinstance(r, list):
            return I.new_list(r)
        return r
    if name == 'join':
        items = args[0]
        c = I.items_of(items)
        if isinstance(c, list):
            r = ''
            for i, x in enumerate(c):
                if i:
                    r = I.str_add(r, o)
                r = I.str_add(r, x)
            return r
        h = I.world.join(o, items)
        if h is not None:
            return h
        return I.opaque_str('join', o, items)
    ts = [o] + list(args) + list(kw.values())
    for a in args:
        if a is None and name in ('startswith', 'endswith', 'replace', 'find'):
            I.raise_(TypeError)
    if name in STR_BOOL:
        fs = I.uf('s_' + name + str(len(ts)), *([U] * len(ts) + [BOOL]))
        return fs(*[I.to_u(x) for x in ts])
    if name in STR_STR:
        return I.opaque_str(name, *ts)
    if name in STR_INT:
        r = I.uf('s_' + name + str(len(ts)), *([U] * len(ts) + [INT]))(*[I.to_u(x) for x in ts])
        I.assume(r >= -1 if name != 'count' else r >= 0)
        return r
    if name in ('index', 'rindex'):
        I.may_raise('str.index')
        r = I.fresh(INT, 'index')
        I.assume(r >= 0)
        return r
    if name in ('split', 'rsplit', 'splitlines'):
        key = I.opaque_str(name, *ts).t
        n = I.uf('s_parts', U, INT)(key)
        if args and args[0] is not None:
            I.assume(n >= 1)
        else:
            I.assume(n >= 0)
        return I.new_list(SeqV('list', n, lambda i: Ob(I.uf('s_part', U, INT, U)(key, rv(i)), 'str')))
    if name in ('partition', 'rpartition'):
        key = I.opaque_str(name, *ts).t
        return tuple(Ob(I.uf('s_part', U, INT, U)(key, z3.IntVal(i)), 'str') for i in range(3))
    if name == 'encode':
        return Ob(I.fresh(U, 'bytes'))
    raise Unsupported('str.%s' % name)


def call_ext(I, dotted, args, kw):
    h = I.world.ext(dotted, args, kw)
    if h is not None:
        return None if h is UNDEF else h
    if dotted in ('functools.partial',):
        return PartialV(args[0], list(args[1:]), kw)
    if dotted in ('functools.wraps',):
        return DecoratorV(lambda I, f: f)
    if dotted in ('functools.lru_cache', 'functools.cache'):
        if dotted.endswith('cache') and args and isinstance(args[0], FuncV):
            raise Unsupported('cached function')
        return DecoratorV(lambda I, f: (_ for _ in ()).throw(Unsupported('cached function')))
    if dotted in ('copy.deepcopy', 'copy.copy'):
        v = args[0]
        if isinstance(v, DictV):
            return I.new_dict(dict(I.heap[v.id]))
        if isinstance(v, ListV):
            c = I.heap[v.id]
            return I.new_list(list(c) if isinstance(c, list) else c)
        return v
    if dotted.startswith('re.') and all(conc(a) for a in args) and all(conc(a) for a in kw.values()):
        f = dotted[3:]
        if f in ('sub', 'findall', 'split', 'escape'):
            try:
                r = getattr(_re, f)(*args, **kw)
            except Exception as x:
                I.raise_(type(x))
            return I.new_list(list(r)) if isinstance(r, list) else r
    if dotted.startswith('operator.'):
        return I.world.operator(dotted[9:], args)
    if dotted.startswith('itertools.'):
        f = dotted[10:]
        if f == 'product' and len(args) == 2 and not kw:
            a, b = I.iter_items(args[0]), I.iter_items(args[1])
            if isinstance(a, list) and isinstance(b, list):
                return tuple((x, y) for x in a for y in b)
            a = a if isinstance(a, SeqV) else I.as_seq(tuple(a))
            b = b if isinstance(b, SeqV) else I.as_seq(tuple(b))
            raise Unsupported('itertools.product of unknown length')
        if f == 'zip_longest':
            a, b = I.iter_items(args[0]), I.iter_items(args[1])
            import itertools
            if isinstance(a, list) and isinstance(b, list):
                return tuple(itertools.zip_longest(a, b, **kw))
        raise Unsupported(dotted)
    I.external.setdefault(dotted, 'havoc, may raise')
    I.taint(dotted)
    I.may_raise('call of %s' % dotted)
    return Ob(I.fresh(U, 'x_' + dotted.split('.')[-1]))
