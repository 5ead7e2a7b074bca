"""Loops over sequences (or with conditions) of unknown length.

The body is explored once for an arbitrary iteration j.  Every location (local, module variable, heap object) that some
path through the body changes becomes a function of the iteration number, so the loop as a whole is described exactly:
for every earlier iteration one of the normal paths was taken, with the state of the next iteration as that path leaves
it; the loop then ends normally, or one exit path (break, return, exception) is taken at some iteration k.  Because z3
does no induction, facts about such trace functions come from closed forms (constant step, one append per iteration) and
from candidate invariants kept only when they are shown inductive (Houdini).
"""
import z3

from .values import *
from . import engine as E


def unconfirm(locs):
    """What was appended may differ now that another location is described differently."""
    for L in locs.values():
        if L.mode == 'append':
            L.confirmed = False


def same_val(a, b):
    if a is b:
        return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if isinstance(a, Ob) and isinstance(b, Ob):
        return a.t.eq(b.t)
    if type(a) is not type(b):
        return False
    if isinstance(a, (bool, int, float, str)):
        return a == b
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same_val(x, y) for x, y in zip(a, b))
    if isinstance(a, (ListV, DictV)):
        return a.id == b.id
    if isinstance(a, SetV):
        return len(a.items) == len(b.items) and all(same_val(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, list):
        return len(a) == len(b) and all(same_val(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same_val(a[k], b[k]) for k in a)
    if isinstance(a, FuncV):
        return a.node is b.node and a.closure is b.closure
    if isinstance(a, (ExtV, )):
        return a.dotted == b.dotted
    if isinstance(a, BuiltinV):
        return a.name == b.name
    if isinstance(a, MethV):
        return a.name == b.name and same_val(a.recv, b.recv)
    return False


def diff(pre, post):
    """Locations of `pre` whose value differs in `post`: {loc: new value}."""
    out = {}
    for i, (f, vs) in enumerate(pre[0]):
        pv = post[0][i][1]
        for k, x in vs.items():
            y = pv.get(k, UNDEF)
            if not same_val(x, y):
                out[('f', i, k)] = y
        for k, y in pv.items():
            if k not in vs:
                out[('f', i, k)] = y
    for k, x in pre[1].items():
        y = post[1].get(k)
        if not same_val(x, y):
            out[('h', k)] = y
    pm = {id(m): (m, vs) for m, vs in pre[2]}
    for m, vs in post[2]:
        old = pm[id(m)][1] if id(m) in pm else {}
        for k, y in vs.items():
            x = old.get(k, UNDEF)
            if isinstance(x, tuple) and x and x[0] in ('lazy', 'from'):
                continue
            if x is UNDEF and isinstance(y, (FuncV, ClassV, ExtV, ModV)):
                continue
            if isinstance(y, tuple) and y and y[0] in ('lazy', 'from'):
                continue
            if not same_val(x, y):
                out[('m', m.name, k)] = y
    return out


def get_loc(I, frames, loc):
    if loc[0] == 'f':
        return frames[loc[1]][0].vars.get(loc[2], UNDEF)
    if loc[0] == 'h':
        return I.heap.get(loc[1])
    return I.src.mods[loc[1]].vars.get(loc[2], UNDEF)


def set_loc(I, frames, loc, v):
    if loc[0] == 'f':
        frames[loc[1]][0].vars[loc[2]] = v
    elif loc[0] == 'h':
        I.heap[loc[1]] = v
    else:
        I.src.mods[loc[1]].vars[loc[2]] = v


class Subst:
    """Move a value from the generic iteration j (with heap `heap`) to another one, `to`."""
    def __init__(self, I, j, to, heap, known):
        self.I, self.j, self.to, self.heap, self.known = I, j, to, heap, known

    def f(self, t):
        return z3.substitute(t, (self.j, self.to))

    def val(self, v, live=True):
        if isinstance(v, z3.ExprRef):
            return self.f(v)
        if isinstance(v, Ob):
            return Ob(self.f(v.t), v.ty)
        if isinstance(v, tuple):
            return tuple(self.val(x, live) for x in v)
        if isinstance(v, SetV):
            return SetV([self.val(x, live) for x in v.items])
        if isinstance(v, SeqV) and hasattr(v, 'sym_subst'):
            return v.sym_subst(self)
        if isinstance(v, SeqV):
            return SeqV(v.kind, self.f(v.n), lambda i: self.val(v.get(i), False), self.f(v.u) if v.u is not None else None)
        if isinstance(v, ListV):
            if v.id in self.known:
                return v
            c = self.heap[v.id]
            if live:
                return self.I.new_list(self.content(c, live))
            if isinstance(c, SeqV):
                return self.val(SeqV('list', c.n, c.get, c.u), live)
            items = [self.val(x, live) for x in c]
            return frozen(self.I, items)
        if isinstance(v, DictV):
            if v.id in self.known:
                return v
            return self.I.new_dict({k: self.val(x, live) for k, x in self.heap[v.id].items()})
        if isinstance(v, PartialV):
            return PartialV(self.val(v.fn), [self.val(x) for x in v.args], {k: self.val(x) for k, x in v.kw.items()})
        if isinstance(v, MethV):
            return MethV(self.val(v.recv), v.name)
        if hasattr(v, 'sym_subst'):
            return v.sym_subst(self)
        return v

    def content(self, c, live=True):
        if isinstance(c, list):
            return [self.val(x, live) for x in c]
        if isinstance(c, dict):
            return {k: self.val(x, live) for k, x in c.items()}
        return self.val(c, live)


def frozen(I, items):
    s = I.as_seq(tuple(items))
    return SeqV('list', s.n, s.get)


def vkind(I, v):
    if isinstance(v, Poison) or v is UNDEF:
        return 'poison'
    if E.is_bool(v):
        return 'bool'
    if E.is_int(v):
        return 'int'
    if E.is_real(v):
        return 'real'
    if v is None or isinstance(v, (str, Ob)):
        return 'u'
    if isinstance(v, (SeqV, list)):
        return 'seq'
    return 'other'


class Loc:
    def __init__(self, loc, init):
        self.loc, self.init = loc, init
        self.mode = 'poison'
        self.T = None
        self.step = None
        self.elem = None
        self.ty = None
        self.cands = None       # closed forms a specification offers
        self.owned = False


def loc_in(snap, loc):
    if loc[0] == 'f':
        return snap[0][loc[1]][1].get(loc[2], UNDEF)
    return snap[1].get(loc[1]) if loc[0] == 'h' else UNDEF


def references(snap, hid):
    """How many variables and containers hold the heap object."""
    n = 0

    def count(v):
        if isinstance(v, (ListV, DictV)):
            return int(v.id == hid)
        if isinstance(v, (tuple, list)):
            return sum(count(x) for x in v)
        if isinstance(v, dict):
            return sum(count(x) for x in v.values())
        if isinstance(v, SetV):
            return sum(count(x) for x in v.items)
        return 0
    for f, vs in snap[0]:
        n += sum(count(x) for x in vs.values())
    for k, c in snap[1].items():
        n += count(c) if isinstance(c, (list, dict)) else 0
    return n


def carried(I, L, v, heap):
    """The value of a shaped location: the content of a list, or the text itself."""
    return heap.get(v.id) if isinstance(v, ListV) else v


def check_shapes(I, shapes, normal, at, j, step_formula, traces, invs):
    """Each shape holds at the start and is kept by every path of the body; returns those that are not."""
    bad = []
    base = list(I.ex.pc)
    for L in shapes:
        sh = L.cands[0]
        init = carried(I, L, L.init, I.heap) if L.owned else L.init
        fs = []
        f = sh.is_at(I, init, z3.IntVal(0))
        ok = f is not None and proves_(I, base + I.lit_axioms(), f)
        if ok:
            for v, r, d in normal:
                start = carried(I, L, loc_in(v[-1], L.loc), v[-1][1]) if L.loc[0] == 'f' else v[-1][1].get(L.loc[1])
                post = loc_in(r.snap, L.loc)
                post = carried(I, L, post, r.snap[1]) if L.loc[0] == 'f' else post
                save = I.ex
                I.ex = None
                try:
                    f = sh.is_at(I, post, j + 1)
                finally:
                    I.ex = save
                if f is None:
                    ok = False
                    break
                hyp = base + list(r.pc) + [step_formula(T, d, None, j) for T in traces] + [x(j) for x in invs] + [x(j + 1) for x in invs] + I.lit_axioms()
                if not proves_(I, hyp, f):
                    ok = False
                    break
        if not ok:
            bad.append(L)
    return bad


def proves_(I, hyps, goal):
    s = z3.Solver()
    s.set('timeout', 3000)
    s.add(*[E.zb(h) for h in hyps])
    s.add(z3.Not(E.zb(goal)))
    I.houdini_queries += 1
    return s.check() == z3.unsat


def symbolic_loop(I, seq, body_at, n, cond):
    # the analysis of a loop depends only on the path that leads to it: kept between re-executions when names are reproducible
    key = None
    if I.world.det and I.ex is not None:
        I.ex.nloops += 1
        key = (tuple(x[0] for x in I.ex.prefix[:I.ex.pos]), I.ex.nloops)
    if key is not None and key in I.ex.loop_cache:
        A, I.cnt, taint = I.ex.loop_cache[key]
        I.ex.taint |= taint
    else:
        A = analyse(I, seq, body_at, n, cond)
        if key is not None:
            I.ex.loop_cache[key] = (A, I.cnt, set(I.ex.taint))
    return conclude(I, n, cond, *A)


def analyse(I, seq, body_at, n, cond):
    pre = I.snapshot()
    frames = pre[0]
    known = set(pre[1])
    locs = {}
    nobl = len(I.obls)
    label = '%s loop' % I.func

    def at(L, i):
        """Value of a changed location at the start of iteration i."""
        if L.mode == 'poison':
            return Poison('a variable carried around a loop (%s)' % (L.loc,))
        if L.mode == 'step':
            return L.init + L.step * i if not isinstance(i, int) else L.init + L.step * i
        if L.mode == 'trace':
            t = L.T(*(I.idx_outer + [E.rv(i)]))
            return t if L.kind != 'u' else Ob(t, L.ty)
        if L.mode == 'append':
            base = L.init_seq
            i = E.rv(i)

            def get(q, i=i):
                q = E.rv(q)
                c = z3.simplify(q < base.n)
                if z3.is_true(c):
                    return base.get(q)
                if z3.is_false(c) or z3.is_int_value(z3.simplify(base.n)) and z3.simplify(base.n).as_long() == 0:
                    return L.elem(z3.simplify(q - base.n))
                return I.ite(q < base.n, base.get(q), lambda: L.elem(q - base.n))
            return SeqV('list', z3.simplify(base.n + i), get)
        if L.mode == 'shape':
            v = L.cands[0].at(I, i)
            return I.new_list(v) if L.owned else v
        raise Unsupported('loop location')

    outer_idx = list(I.idx)
    I.idx_outer = outer_idx
    saved_outer = outer_idx
    invs = []
    rounds = 0
    final = False
    while True:
        rounds += 1
        if rounds > 30:
            raise Unsupported('loop: no fixpoint of the changed locations')
        del I.obls[nobl:]
        I.cnt += 1
        j = z3.Int('j!%d' % I.cnt)
        poison_read = []

        def thunk():
            I.assume(j >= 0)
            if n is not None:
                I.assume(j < E.rv(n))
            for L in locs.values():
                set_loc(I, frames, L.loc, at(L, j))
            for inv in invs:
                f = inv(j)
                if f is not True:
                    I.assume(f)
            start = I.snapshot()
            starts.append(start)
            if cond is not None and not cond():
                return ('done', start)
            try:
                body_at(j)
            except ContSig:
                pass
            except PyExc as e:
                raise LoopSig(('raise', e.exc, start))
            except RetSig as e:
                raise LoopSig(('return', e.value, start))
            except BreakSig:
                raise LoopSig(('break', None, start))
            return ('next', start)
        starts = []

        def run():
            try:
                return thunk()
            except LoopSig as s:
                return s.v
        I.idx = outer_idx + [j]
        I.idx_outer = outer_idx
        try:
            res = I.explore(run, want_snap=True)
        except Unsupported as u:
            # a poisoned location was read: give it a trace
            p = [L for L in locs.values() if L.mode == 'poison' and str(L.loc) in str(u)]
            if not p:
                raise
            for L in p:
                upgrade(I, L, outer_idx)
            unconfirm(locs)
            continue
        finally:
            I.idx = list(outer_idx)
            I.idx_outer = saved_outer
        paths = []
        for r in res:
            if r.kind != 'ok':
                raise Unsupported('loop: signal %s' % r.kind)
            v = r.value
            # the start state was captured on the same path
            d = diff(v[-1], r.snap)
            for L in locs.values():
                if L.mode == 'shape' and L.owned:
                    # a list only this variable holds: its content is what is carried
                    a, b = loc_in(v[-1], L.loc), loc_in(r.snap, L.loc)
                    if isinstance(a, ListV) and d.pop(('h', a.id), None) is not None:
                        d.setdefault(L.loc, b)
            paths.append((v, r, d))
        normal = [p for p in paths if p[0][0] == 'next']
        exits = [p for p in paths if p[0][0] not in ('next',)]
        # new changed locations?
        new = False
        for v, r, d in normal:
            for loc in d:
                if loc not in locs:
                    init = frames_value(pre, loc)
                    locs[loc] = Loc(loc, init)
                    new = True
        if new:
            for L in list(locs.values()):
                if L.loc[0] == 'f' and isinstance(L.init, ListV) and L.mode == 'poison' and L.cands is None:
                    L.cands = I.world.loop_shapes(I, L.loc, pre[1].get(L.init.id))
                    if L.cands:
                        if references(pre, L.init.id) != 1:
                            raise Unsupported('loop: a list held by two variables is replaced')
                        L.mode, L.owned = 'shape', True
                        locs.pop(('h', L.init.id), None)
            owned = {L.init.id for L in locs.values() if L.owned}
            for L in list(locs.values()):
                if L.loc[0] == 'h' and L.loc[1] in owned:
                    del locs[L.loc]
                elif L.mode == 'poison' and L.cands is None:
                    # a heap object is always carried, a variable when the code reads it
                    L.cands = I.world.loop_shapes(I, L.loc, L.init) if L.loc[0] == 'h' or L.init == '' else []
                    if L.cands:
                        L.mode = 'shape'
                    elif L.loc[0] == 'h':
                        classify_heap(I, L, outer_idx)
            unconfirm(locs)
            continue
        # refine modes: poison stays as long as never read; step / append must be confirmed
        again = changed = False
        for L in locs.values():
            if L.mode == 'try-step' or L.mode == 'step':
                ok = True
                for v, r, d in normal:
                    nv = d.get(L.loc, at(L, j))
                    if not E.is_num(nv) or not z3.is_true(z3.simplify(E.rv(nv) == E.rv(at(L, j + 1)))):
                        ok = False
                if not ok:
                    # try another constant
                    consts = set()
                    good = True
                    for v, r, d in normal:
                        nv = d.get(L.loc, at(L, j))
                        if not E.is_int(nv):
                            good = False
                            break
                        c = z3.simplify(E.rv(nv) - E.rv(at(L, j)))
                        if not z3.is_int_value(c):
                            good = False
                            break
                        consts.add(c.as_long())
                    if good and len(consts) == 1 and not L.tried:
                        L.step = consts.pop()
                        L.tried = True
                    else:
                        mk_trace(I, L, outer_idx)
                    again = changed = True
            elif L.mode == 'append':
                elems = []
                ok = True
                for v, r, d in normal:
                    c = d.get(L.loc, None)
                    e = appended(I, v[-1][1].get(L.loc[1]), c)
                    if e is None:
                        ok = False
                        break
                    elems.append((r, e[0]))
                if not ok:
                    raise Unsupported('loop: list changed other than by one append per iteration')
                L.elem_paths = elems
                if L.confirmed:
                    continue
                mk_elem(I, L, elems, j, outer_idx, known)
                L.confirmed = True
                again = True
            elif L.mode == 'poison' and L.loc[0] == 'f' and (E.is_bool(L.init) or E.is_int(L.init)):
                # a flag or counter set on some paths only and not read in the loop
                ws = [d[L.loc] for v, r, d in normal if L.loc in d]
                if len(ws) < len(normal) and all(E.is_bool(x) or E.is_int(x) for x in ws):
                    if E.is_bool(L.init) and all(E.is_bool(x) for x in ws):
                        mk_trace(I, L, outer_idx)
                    else:
                        upgrade(I, L, outer_idx)
                    again = changed = True
            elif L.mode == 'trace':
                for v, r, d in normal:
                    nv = d.get(L.loc, at(L, j))
                    k = vkind(I, nv)
                    if k in ('seq', 'other', 'poison'):
                        raise Unsupported('loop: variable %s holds structured values' % (L.loc,))
                    if k != L.kind and not (k == 'bool' and L.kind == 'u') and not (L.kind == 'u'):
                        L.kind = 'u'
                        mk_trace(I, L, outer_idx, 'u')
                        again = changed = True
                        break
                    if L.kind == 'u':
                        ty = nv.ty if isinstance(nv, Ob) else I.kind_of(nv)
                        if ty != L.ty and L.ty is not None:
                            L.ty = None
                            again = changed = True
                            break
        if changed:
            unconfirm(locs)
        if again:
            continue

        def step_formula(L, d, start_at, i):
            """The value of L at iteration i+1 is the one this path leaves (both already moved to i)."""
            nv = d.get(L.loc)
            if nv is None and L.loc not in d:
                nv = at(L, j)
            a = at(L, j + 1)
            if L.kind == 'u':
                return a.t == I.to_u(nv)
            return E.zb(a) == E.zb(nv) if L.kind == 'bool' else a == (z3.ToReal(E.rv(nv)) if L.kind == 'real' and E.is_int(nv) else E.rv(nv))
        traces = [L for L in locs.values() if L.mode == 'trace']
        if traces and not final:
            invs = houdini(I, traces, normal, at, j, step_formula, outer_idx, seq)
            final = True
            if invs:
                continue
        shapes = [L for L in locs.values() if L.mode == 'shape']
        bad = check_shapes(I, shapes, normal, at, j, step_formula, traces, invs)
        if bad:
            for L in bad:
                L.cands.pop(0)
                if not L.cands:
                    raise Unsupported('loop: no closed form for %s' % (L.loc,))
            invs, final = [], False
            unconfirm(locs)
            continue
        break
    I.loop_log.append((I.func, len(normal), len(exits), [(str(L.loc[-1]), L.mode) for L in locs.values()], len(invs)))
    return at, step_formula, known, locs, normal, exits, traces, invs, j


def conclude(I, n, cond, at, step_formula, known, locs, normal, exits, traces, invs, j):
    frames = I.snapshot()[0]
    ax = []
    for L in traces:
        a0 = at(L, 0)
        if L.kind == 'u':
            ax.append(a0.t == I.to_u(L.init))
        elif L.kind == 'bool':
            ax.append(a0 == E.zb(L.init))
        else:
            ax.append(a0 == (z3.ToReal(E.rv(L.init)) if L.kind == 'real' and E.is_int(L.init) else E.rv(L.init)))
    # one normal iteration at j
    steps = []
    for v, r, d in normal:
        fs = list(r.pc) + [step_formula(L, d, None, j) for L in traces]
        steps.append(z3.And(*fs) if len(fs) > 1 else (fs[0] if fs else z3.BoolVal(True)))
    one = z3.Or(*steps) if len(steps) > 1 else (steps[0] if steps else z3.BoolVal(False))
    # drop the range facts every path starts with
    I.cnt += 1
    q = z3.Int('q!%d' % I.cnt)

    def hist(m):
        m = E.rv(m)
        body = z3.simplify(z3.substitute(one, (j, q)))
        if z3.is_true(body):
            fs = []
        else:
            fs = [z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < m), body))]
        for inv in invs:
            f = inv(q)
            if f is not True:
                fs.append(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q <= m), f)))
                fs.append(inv(m))
        return fs
    options = []
    if cond is None:
        options.append(('complete', z3.And(*(hist(n) + ax + [z3.BoolVal(True)])), None, None))
    groups = {}
    for v, r, d in exits:
        key = None
        if v[0] in ('return', 'break') and not d:
            val = v[1]
            if val is None or isinstance(val, (bool, int, str)):
                key = (v[0], repr(val))
        if v[0] == 'raise' and not d and v[1].cls is None:
            key = ('raise', None)
        if v[0] == 'done':
            key = None
        if key is not None and key in groups:
            groups[key][1].append(r)
        else:
            groups[key if key is not None else id(r)] = [(v, r, d), [r]]
    for (v, r, d), rs in groups.values():
        k = I.fresh(INT, 'k')
        pcs = [z3.And(*x.pc) if x.pc else z3.BoolVal(True) for x in rs]
        pc = z3.Or(*pcs) if len(pcs) > 1 else pcs[0]
        fs = [k >= 0] + ([k < E.rv(n)] if n is not None else []) + hist(k) + ax + [z3.substitute(pc, (j, k))]
        options.append((v[0], z3.And(*fs), (v, r, d), k))
    i = I.choose_n([o[1] for o in options])
    what, _, path, k = options[i]
    if what == 'complete':
        last = LastIteration(I, frames, locs, n, normal, j, known)
        for L in locs.values():
            v = final_value(I, L, at, n, normal, j, known)
            if isinstance(v, Poison) and L.loc[0] == 'f' and L.init is not None and any(L.loc in d for _, _, d in normal):
                v.resolve = last
            set_loc(I, frames, L.loc, v)
        return True
    v, r, d = path
    S = Subst(I, j, k, r.snap[1], known)
    for L in locs.values():
        if L.loc not in d:
            set_loc(I, frames, L.loc, at(L, k))
    for loc, nv in d.items():
        if loc in locs and locs[loc].owned:
            set_loc(I, frames, loc, I.new_list(S.content(r.snap[1][nv.id])))
            continue
        set_loc(I, frames, loc, S.content(nv) if loc[0] == 'h' else S.val(nv))
    if what == 'done':
        return True
    if what == 'break':
        return False
    if what == 'return':
        raise RetSig(S.val(v[1]))
    raise PyExc(v[1])


class LastIteration:
    """Variables the body writes and never reads: after the loop they have the value the last iteration left, decided when first read."""
    def __init__(self, I, frames, locs, n, normal, j, known):
        self.I, self.frames, self.locs, self.n, self.normal, self.j, self.known = I, frames, locs, n, normal, j, known

    def __call__(self, poison):
        I, n = self.I, E.rv(self.n)
        mine = [L for L in self.locs.values() if L.mode == 'poison' and L.loc[0] == 'f'
                and getattr(get_loc(I, self.frames, L.loc), 'resolve', None) is self]
        if I.choose(n == 0):
            for L in mine:
                set_loc(I, self.frames, L.loc, L.init)
            return
        conds = [z3.substitute(z3.And(*r.pc), (self.j, n - 1)) if r.pc else z3.BoolVal(True) for v, r, d in self.normal]
        v, r, d = self.normal[I.choose_n(conds) if len(conds) > 1 else 0]
        S = Subst(I, self.j, n - 1, r.snap[1], self.known)
        for L in mine:
            if L.loc in d:
                set_loc(I, self.frames, L.loc, S.val(d[L.loc]))
            else:
                set_loc(I, self.frames, L.loc, Poison('a variable carried out of a loop (%s)' % (L.loc,)))


class LoopSig(BaseException):
    def __init__(self, v):
        self.v = v


def final_value(I, L, at, n, normal, j, known):
    if L.mode != 'poison':
        return at(L, n)
    # written in every iteration the same way: the value of the last iteration, if there was one
    vals = [(r, d.get(L.loc)) for v, r, d in normal]
    if len(vals) == 1 and vals[0][1] is not None and L.loc[0] != 'h':
        s = z3.simplify(E.rv(n))
        r, v = vals[0]
        pos = z3.simplify(s > 0)
        if z3.is_true(pos):
            return Subst(I, j, s - 1, r.snap[1], known).val(v, True)
    return Poison('a variable carried out of a loop (%s)' % (L.loc,))


def frames_value(pre, loc):
    if loc[0] == 'f':
        return pre[0][loc[1]][1].get(loc[2], UNDEF)
    if loc[0] == 'h':
        return pre[1].get(loc[1])
    for m, vs in pre[2]:
        if m.name == loc[1]:
            return vs.get(loc[2], UNDEF)
    return UNDEF


def mk_trace(I, L, outer, kind=None):
    k = kind or vkind(I, L.init)
    if k in ('poison', 'seq', 'other'):
        raise Unsupported('loop: cannot trace %s (%r)' % (L.loc, L.init))
    L.kind = k
    sort = {'bool': BOOL, 'int': INT, 'real': REAL, 'u': U}[k]
    I.cnt += 1
    L.T = z3.Function('tr_%s!%d' % (str(L.loc[-1]).strip('.'), I.cnt), *([t.sort() for t in outer] + [INT, sort]))
    L.mode = 'trace'
    L.ty = (L.init.ty if isinstance(L.init, Ob) else I.kind_of(L.init)) if k == 'u' else None
    if L.ty == 'NoneType':
        L.ty = None


def upgrade(I, L, outer):
    if E.is_int(L.init):
        L.mode, L.step, L.tried = 'step', 0, False
        L.init = E.rv(L.init)
        return
    mk_trace(I, L, outer)


def classify_heap(I, L, outer):
    v = L.init
    if isinstance(v, (list, SeqV)):
        L.mode = 'append'
        L.confirmed = False
        if isinstance(v, list):
            s = I.as_seq(tuple(v))
            L.init_seq = SeqV('list', s.n, s.get)
        else:
            L.init_seq = v
        I.cnt += 1
        name = 'el!%d' % I.cnt

        def elem(i, name=name):
            return Ob(z3.Function(name, *([t.sort() for t in outer] + [INT, U]))(*(list(outer) + [E.rv(i)])))
        L.elem = elem
        return
    if isinstance(v, z3.ExprRef) or isinstance(v, (int, bool)):
        if E.is_int(v):
            L.mode, L.step, L.tried = 'step', 0, False
            L.init = E.rv(v)
        else:
            mk_trace(I, L, outer)
        return
    if isinstance(v, Ob):
        mk_trace(I, L, outer)
        return
    raise Unsupported('loop changes a heap object of another kind (%s)' % (L.loc,))


def appended(I, base, c):
    """c == base + [x]?  -> [x]"""
    if isinstance(c, SeqV):
        parts = I.parts_of(c)
        if len(parts) == 2 and parts[0] is base or len(parts) >= 2 and parts[:-1] == I.parts_of(base):
            last = parts[-1]
            m = z3.simplify(last.n)
            if z3.is_int_value(m) and m.as_long() == 1:
                return [last.get(z3.IntVal(0))]
    return None


def mk_elem(I, L, elems, j, outer, known):
    if not elems:
        return
    if len(elems) == 1 or all(same_val(elems[0][1], e) for _, e in elems):
        r, e = elems[0]
        heap = r.snap[1]

        def elem(i):
            return Subst(I, j, E.rv(i), heap, known).val(e, False)
        L.elem = elem
        return
    # several paths: an element function, described path by path
    raise Unsupported('loop: appended element differs by path')


def houdini(I, traces, normal, at, j, step_formula, outer, seq):
    cands = []
    for L in traces:
        if L.kind == 'bool':
            cands.append(lambda i, L=L: at(L, i) == E.zb(L.init))
        elif L.kind == 'int':
            init = E.rv(L.init)
            cands.append(lambda i, L=L, c=init: at(L, i) >= c)
            cands.append(lambda i, L=L, c=init: at(L, i) <= c)
            cands.append(lambda i, L=L: at(L, i) >= 0)
            cands.append(lambda i, L=L, c=init: at(L, i) <= c + i)
        elif L.kind == 'u':
            cands.append(lambda i, L=L, c=I.to_u(L.init): at(L, i).t == c)
    cands += I.world.loop_candidates(I, traces, at, seq)
    base = list(I.ex.pc)
    ax = []
    for L in traces:
        a0 = at(L, 0)
        if L.kind == 'u':
            ax.append(a0.t == I.to_u(L.init))
        elif L.kind == 'bool':
            ax.append(a0 == E.zb(L.init))
        else:
            ax.append(a0 == (z3.ToReal(E.rv(L.init)) if L.kind == 'real' and E.is_int(L.init) else E.rv(L.init)))

    def proves(hyps, goal):
        s = z3.Solver()
        s.set('timeout', 1500)
        s.add(*hyps)
        s.add(z3.Not(goal))
        I.houdini_queries += 1
        return s.check() == z3.unsat
    cands = [c for c in cands if proves(base + ax + I.lit_axioms(), c(z3.IntVal(0)))]
    changed = True
    while changed and cands:
        changed = False
        for c in list(cands):
            for v, r, d in normal:
                hyp = base + list(r.pc) + [step_formula(L, d, None, j) for L in traces] + [x(j) for x in cands] + I.lit_axioms()
                if not proves(hyp, c(j + 1)):
                    cands.remove(c)
                    changed = True
                    break
    return cands
