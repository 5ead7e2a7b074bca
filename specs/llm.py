"""Contract of get_llm_type (math_evaluation/llms/llm_models.py)."""
from .common import *

Q = 'math_evaluation.llms.llm_models:get_llm_type'


def pat_key(p):
    import re._parser as sp
    return str(sp.parse(p))


WANT = pat_key(r'Type:\s*(.*)')


class LlmWorld(CmpWorld):
    def __init__(self):
        CmpWorld.__init__(self)
        self.prompts = []

    def ext(self, dotted, args, kw):
        I = self.I
        if dotted == 're.search' and len(args) == 2 and isinstance(args[0], str) and isinstance(args[1], Ob) and args[1].ty == 'reply':
            t = args[1].t
            if pat_key(args[0]) != WANT:
                I.taint('another pattern')
                return None
            if I.choose(UF('reply_not_text', U, BOOL)(t)):
                I.raise_(TypeError, 're.search')
            if I.choose(UF('reply_has_type', U, BOOL)(t)):
                return Ob(t, 'tmatch')
            return UNDEF
        return None

    def truth(self, v):
        if isinstance(v, Ob) and v.ty == 'tmatch':
            return True
        return None

    def method(self, o, name, args, kw):
        I = self.I
        if isinstance(o, Ob) and o.ty == 'tmatch' and name == 'group':
            if list(args) == [1]:
                return Ob(UF('type_text', U, U)(o.t), 'str')
            I.taint('another group')
            return Ob(I.fresh(U, 'grp'), 'str')
        if isinstance(o, str) and name == 'format' and 'ground_truth' in kw:
            I.log('prompt', dict(kw))
            return Ob(I.fresh(U, 'prompt'), 'str')
        return None

    def subscript(self, o, k):
        if isinstance(o, Ob) and o.ty == 'tmatch':
            return self.method(o, 'group', [k], {})
        return None


def unit_llm(u, part):
    w = LlmWorld()
    I = u.interp(w)
    REPLY, RAISES = UF('reply', INT, U), UF('call_raises', INT, BOOL)
    nt, ht, tt = UF('reply_not_text', U, BOOL), UF('reply_has_type', U, BOOL), UF('type_text', U, U)
    I.cnt += 1
    ghost = 'ghost_calls'
    I.heap[ghost] = 0

    def call(I, a, k):
        n = I.heap[ghost]
        I.heap[ghost] = z3.simplify(rv(n) + 1) if not isinstance(n, int) else n + 1
        if I.choose(RAISES(rv(n))):
            raise PyExc(ExcV(None, (), 'call_llm'))
        return Ob(REPLY(rv(n)), 'reply')
    q, a = const_str('question'), const_str('answer')
    mt = z3.Int('max_try')
    ok = lambda k: z3.And(z3.Not(RAISES(k)), z3.Not(nt(REPLY(k))), ht(REPLY(k)))
    j = z3.Int('jj')
    for pt in (1, 2):
        rs = u.explore(I, Q, [HookV(call, 'call_llm'), q, a, pt, mt])
        u.cover('a later try succeeds', [mt == 3, z3.Not(ok(z3.IntVal(0))), ok(z3.IntVal(1))])
        for i, r in enumerate(rs):
            imp = bool(r.taint)
            u.prove('prompt %d path %d: does not raise' % (pt, i), r.pc, r.kind != 'raise', imprecise=imp, info='%r' % (r.value,))
            if r.kind == 'raise':
                continue
            n = rv(r.snap[1][ghost])
            lim = z3.If(mt > 0, mt, 0)
            u.prove('prompt %d path %d: at most max_try calls' % (pt, i), r.pc, n <= lim, imprecise=imp)
            v = r.value
            u.prove('prompt %d path %d: every call before the last was unusable' % (pt, i), r.pc,
                    z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n - 1), z3.Not(ok(j)))), imprecise=imp)
            t = I.to_u(v)
            u.prove('prompt %d path %d: the result is the type of the last reply, or nothing after max_try failures' % (pt, i), r.pc,
                    z3.Or(z3.And(n >= 1, ok(n - 1), t == tt(REPLY(n - 1)), zb(v is not None)), z3.And(zb(v is None), n == lim, z3.Implies(n >= 1, z3.Not(ok(n - 1))))), imprecise=imp)
            pr = [x for x in r.log if x[0] == 'prompt']
            u.prove('prompt %d path %d: the prompt carries the question' % (pt, i), r.pc, len(pr) == 1 and I.to_u(pr[0][1].get('question')) == q.t, imprecise=True)
