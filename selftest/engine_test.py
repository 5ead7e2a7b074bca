"""engine_test.py [FILTER]: the interpreter of pyvc against CPython on small functions.

Every function of PROG is run by CPython on concrete inputs and by the engine on symbolic inputs constrained to these values (lists: of
known length, and of a symbolic length constrained to the same value).  The outcome of CPython must be among the outcomes of the
engine's paths (soundness: a proof covers it), and no path without taint may allow another outcome (precision: no false alarm)."""
import itertools
import os
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from pyvc.values import *
from pyvc import engine as E
from pyvc.world import World
from pyvc.unit import Unit

PROG = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine_prog.py')).read()
INTS = (0, 1, 2, -1, 3, 7)
LISTS = ([], [1], [2, 1], [1, 1, 2], [3, 0, -2, 3])
STRS = ('', 'a', 'ab', 'b a', 'a,b,,c', '12', ' x ')


def put(I, v):
    if isinstance(v, list):
        return I.new_list([put(I, x) for x in v])
    if isinstance(v, tuple):
        return tuple(put(I, x) for x in v)
    if isinstance(v, (set, frozenset)):
        return SetV([put(I, x) for x in v])
    if isinstance(v, dict):
        return I.new_dict({k: put(I, x) for k, x in v.items()})
    return v


def deep_eq(I, g, w):
    if isinstance(w, dict):
        if not isinstance(g, DictV):
            return False
        c = I.heap[g.id]
        ks = list(c)
        if len(ks) != len(w) or any(k not in w for k in ks):
            return False
        return E.band(*[E.zb(deep_eq(I, c[k], w[k])) for k in ks])
    if isinstance(w, (list, tuple)) :
        k = I.kind_of(g)
        if k != type(w).__name__:
            return False
        c = I.items_of(g)
        if isinstance(c, SeqV):
            return E.band(c.n == len(w), *[E.zb(deep_eq(I, c.get(z3.IntVal(i)), x)) for i, x in enumerate(w)])
        if len(c) != len(w):
            return False
        return E.band(*[E.zb(deep_eq(I, x, y)) for x, y in zip(c, w)])
    if isinstance(w, bool) != (I.kind_of(g) == 'bool'):
        return False
    return I.eq(g, put(I, w))


def main(flt):
    d = tempfile.mkdtemp()
    open(os.path.join(d, 'prog.py'), 'w').write(PROG)
    ns = {}
    exec(compile(PROG, 'prog', 'exec'), ns)
    import ast
    fs = [n for n in ast.parse(PROG).body if isinstance(n, ast.FunctionDef) and not n.name.startswith('_')]
    tot = dict(runs=0, unsupported=0, unsound=0, imprecise=0)
    for n in fs:
        if flt and flt not in n.name:
            continue
        ps = [a.arg for a in n.args.args]
        doms = [INTS if p in 'abc' else LISTS if p in ('l', 'm') else (True, False) if p in 'pq' else STRS for p in ps]
        cases = list(itertools.product(*doms))
        if len(cases) > 24:
            cases = cases[::max(1, len(cases) // 24)]
        bad = {}
        for vals in cases:
            try:
                want = ('return', ns[n.name](*[list(v) if isinstance(v, list) else v for v in vals]))
            except Exception as x:
                want = ('raise', type(x).__name__)
            for mode in ('list', 'seq') if any(p in ('l', 'm') for p in ps) else ('list',):
                tot['runs'] += 1
                w = World()
                u = Unit('t')
                I = E.Interp(E.Source(d), w)
                I.func = 't'
                I.deadline = u.deadline
                f = u.func_value(I, 'prog:' + n.name)

                def go():
                    args = []
                    for p, v in zip(ps, vals):
                        if isinstance(v, bool):
                            x = z3.Bool(p)
                            I.assume(x == v)
                        elif isinstance(v, int):
                            x = z3.Int(p)
                            I.assume(x == v)
                        elif isinstance(v, list):
                            if mode == 'list':
                                xs = [z3.Int('%s%d' % (p, i)) for i in range(len(v))]
                                for a, b in zip(xs, v):
                                    I.assume(a == b)
                                x = I.new_list(xs)
                            else:
                                A = z3.Array(p, z3.IntSort(), z3.IntSort())
                                for i, b in enumerate(v):
                                    I.assume(A[i] == b)
                                N = z3.Int('n' + p)
                                I.assume(N == len(v))
                                x = I.new_list(SeqV('list', N, lambda i, A=A: A[i]))
                        else:
                            x = v
                        args.append(x)
                    r = I.call_func(f, args, {}, use_contract=False)
                    return r, (deep_eq(I, r, want[1]) if want[0] == 'return' else False)
                try:
                    rs = I.explore(go, want_snap=True)
                except Unsupported as e:
                    tot['unsupported'] += 1
                    bad.setdefault('unsupported: ' + str(e)[:70], (mode, vals))
                    continue
                found = False
                for r in rs:
                    s = z3.Solver()
                    s.set('timeout', 5000)
                    s.add(*r.pc)
                    if r.kind == 'ok':
                        if want[0] == 'return':
                            c = E.zb(r.value[1])
                        else:
                            c = z3.BoolVal(False)
                    else:
                        cls = getattr(r.value, 'cls', None) or getattr(r.value, 'type', None) or r.value
                        nm = getattr(cls, '__name__', None) or getattr(cls, 'name', None) or str(cls)
                        c = z3.BoolVal(want[0] == 'raise' and want[1] in (nm, str(nm).split('.')[-1]))
                    if s.check(c) != z3.unsat:
                        found = True
                    if not r.taint and s.check(z3.Not(c)) == z3.sat:
                        bad.setdefault('IMPRECISE: %s' % n.name, (mode, vals, want, r.kind, r.value))
                        tot['imprecise'] += 1
                if not found:
                    tot['unsound'] += 1
                    bad.setdefault('UNSOUND', (mode, vals, want, [(r.kind, r.value, sorted(r.taint)) for r in rs][:3]))
        for k, v in bad.items():
            print('%-18s %s %s' % (n.name, k, v))
    print(tot)
    return tot['unsound'] + tot['imprecise']


if __name__ == '__main__':
    sys.exit(1 if main(sys.argv[1] if len(sys.argv) > 1 else '') else 0)
