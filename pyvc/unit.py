"""A verification unit: one function (or lemma) and its obligations."""
import os
import sys
import time
import traceback

import z3

from .values import *
from . import engine as E
from .world import World, solve

REPO = os.environ.get('VERIF_REPO', '/repo')


class Missing(Exception):
    """A function the unit is about is not in the source under that name any more."""


class Unit:
    def __init__(self, name, func=None, timeout_ms=20000, budget=150):
        self.name, self.func = name, func
        self.results = []           # dicts
        self.timeout_ms = timeout_ms
        self.t0 = time.time()
        self.deadline = self.t0 + budget
        self.notes = []
        self.assumed = set()
        self.paths = 0
        self.I = None
        self.lines = {}

    def interp(self, world, src=None):
        src = src or E.Source(REPO)
        I = E.Interp(src, world)
        I.func = self.name
        I.deadline = self.deadline
        self.I = I
        return I

    def func_value(self, I, qual):
        mn, fn = qual.split(':')
        m = I.src.get(mn)
        if m is None:
            raise Missing(qual)
        I.load_module(m)
        if fn not in m.vars:
            raise Missing(qual)
        f = I.module_var(m, fn)
        node = I.src.find_func(qual)
        if node:
            self.lines[qual] = '%s:%d-%d' % (os.path.relpath(node[0].path, REPO), node[1].lineno, node[1].end_lineno)
        return f

    def explore(self, I, qual, args, kw=None, prepare=None):
        """All paths through the body of `qual` (not its contract)."""
        f = self.func_value(I, qual) if isinstance(qual, str) else qual

        def go():
            if prepare is not None:
                prepare()
            a = args() if callable(args) else args
            if isinstance(f, FuncV):
                return I.call_func(f, list(a), dict(kw or {}), use_contract=False)
            return I.call(f, list(a), dict(kw or {}))
        res = I.explore(go, want_snap=True)
        self.paths += len(res)
        if not res:
            raise Unsupported('no feasible path through %s' % (qual,))
        return res

    def prove(self, name, hyps, goal, timeout_ms=None, imprecise=False, info=None):
        if goal is True:
            goal = z3.BoolVal(True)
        if goal is False:
            goal = z3.BoolVal(False)
        extra = (self.I.lit_axioms() if self.I else [])
        if self.I is not None:
            extra = extra + list(self.I.world.axioms() if hasattr(self.I.world, 'axioms') else [])
        if time.time() > self.deadline + 60:
            self.results.append(dict(name=name, func=self.func, result='unknown', backend='none', time=0.0, detail='time budget'))
            return False
        r, model, backend, dt = solve(list(hyps), goal, timeout_ms or self.timeout_ms, extra)
        d = dict(name=name, func=self.func, result=r, backend=backend, time=round(dt, 3))
        if r != 'proved':
            d['goal'] = str(goal)[:1500]
            d['path'] = [str(h)[:400] for h in list(hyps)[:30]]
            if model is not None:
                d['model'] = str(model)[:2500]
            if info:
                d['info'] = info
            if r == 'refuted' and imprecise:
                d['result'] = 'undetermined'
        self.results.append(d)
        return r == 'proved'

    def attempt(self, name, f):
        """One case of several: what lies outside the verified subset leaves this case undecided, not the others."""
        try:
            f()
        except Unsupported as e:
            if time.time() > self.deadline:
                raise
            self.results.append(dict(name='%s: %s' % (name, e), func=self.func, result='undetermined', backend='none', time=0.0, detail='unsupported'))

    def cover(self, name, hyps):
        """The hypotheses must be satisfiable (the proof is not vacuous)."""
        s = z3.Solver()
        s.set('timeout', 5000)
        s.add(*hyps)
        if self.I:
            s.add(*self.I.lit_axioms())
        t0 = time.time()
        r = s.check()
        self.results.append(dict(name='cover: ' + name, func=self.func, result='proved' if r != z3.unsat else 'vacuous', backend='z3',
                                 time=round(time.time() - t0, 3), cover=True))
        return r != z3.unsat

    def discharge_side(self, I):
        """Obligations recorded during interpretation (preconditions of callees, frames)."""
        for o in I.obls:
            self.prove(o.name, o.pc, o.goal)


def run_unit(mod, name, fn, func, budget):
    u = Unit(name, func, budget=budget)
    status = 'ok'
    try:
        fn(u)
    except Missing as e:
        status = 'missing: %s' % e
    except Unsupported as e:
        status = 'unsupported: %s' % e
    except RecursionError:
        status = 'unsupported: recursion'
    except (PathEnd, PyExc, RetSig, BreakSig, ContSig) as e:
        status = 'unsupported: %s escaped' % type(e).__name__
    except Exception as e:
        status = 'error: %s' % traceback.format_exc()[-1500:]
    I = u.I
    return dict(unit=name, func=func, status=status, results=u.results, paths=u.paths, wall=round(time.time() - u.t0, 2),
                inlined=sorted(I.inlined) if I else [], contracts_used=sorted(I.world.calls_used) if I else [],
                external=dict(I.external) if I else {}, assumed=sorted(u.assumed | set(getattr(I.world, 'assumed', ()) if I else ())),
                lines=u.lines, houdini=I.houdini_queries if I else 0, notes=u.notes)
