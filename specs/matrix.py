"""P07, P12: split_matrix on matrices with entries of any length (bounded in the number of rows and columns)."""
from .common import *
from pyvc import rx
from pyvc.text import TextV, Chunk, merge_cells

ALPHA = frozenset(chr(i) for i in range(32, 127)) - frozenset('()[]{},&\\')


class Entry(Chunk):
    def __init__(self, key, latex=False):
        Chunk.__init__(self, key, ALPHA | frozenset('\\{}') if latex else ALPHA, 1, None)
        self.solid = True           # no blanks at either end
        if latex:
            self.avoid = ('\\\\', '\\begin', '\\end', '\\right', '\\left')


class MatrixWorld(CmpWorld):
    det = True

    def __init__(self):
        CmpWorld.__init__(self)
        TextV.STRICT = True
        self.contracts[NO + 'split_tuple'] = C(self.split)
        self.contracts[NO + '_strip_properly_formatted_commas'] = C(lambda I, e: list(e.values())[0])
        self.assumed.add('the texts have no commas that group thousands (split_tuple removes those first)')

    def split(self, I, env):
        """split_tuple as proved in specs/split.py, on texts whose entries have no brackets and no commas."""
        vs = list(env.values())
        t = vs[0]
        et = env.get('expected_type', vs[1] if len(vs) > 1 else None)
        if not isinstance(t, (str, TextV)):
            I.raise_(TypeError)
        kind = et.name if isinstance(et, BuiltinV) else 'set' if et is None else None
        if kind is None:
            raise Unsupported('expected type %r' % (et,))
        return self.cut(I, t, kind, et is not None)

    def cut(self, I, t, kind, given):
        atoms = []
        for p in ([t] if isinstance(t, str) else t.pieces):
            atoms += list(p) if isinstance(p, str) else [p]
        for p in atoms:
            if isinstance(p, Chunk) and (p.alpha is None or p.alpha & frozenset('()[]{},')):
                raise Unsupported('splitting %r' % t)
        d, whole = 0, True
        for i, p in enumerate(atoms):
            if isinstance(p, str):
                d += (p in '([{') - (p in ')]}')
            if d == 0 and i < len(atoms) - 1:
                whole = False
        if d:
            I.raise_(AssertionError)
        pair = {('(', ')'): 'tuple', ('[', ']'): 'list', ('{', '}'): 'set'}.get((atoms[0], atoms[-1]) if atoms and all(isinstance(x, str) for x in (atoms[0], atoms[-1])) else None)
        n = len(atoms)
        if whole and pair and (n > 2):
            atoms = atoms[1:-1]
            if not given:
                kind = pair
        parts, cur, d = [], [], 0
        for p in atoms:
            if isinstance(p, str):
                d += (p in '([{') - (p in ')]}')
                if p == ',' and d == 0:
                    parts.append(cur)
                    cur = []
                    continue
            cur.append(p)
        if not parts:
            return TextV.make(cur)
        if cur:
            parts.append(cur)
        out = []
        for c in parts:
            x = TextV.make(c)
            out.append(x.strip() if isinstance(x, str) else x.sym_method(I, 'strip', [], {}))
        return I.new_list(out) if kind == 'list' else tuple(out) if kind == 'tuple' else SetV(out)

    def iterate(self, v):
        if isinstance(v, TextV):
            n = v.sym_len(self.I)
            ch = z3.Function('char:' + v.key(), INT, U)
            return SeqV('str', n, lambda k: Ob(ch(rv(k)), 'str'))
        return None

    def ext(self, dotted, args, kw):
        I = self.I
        if dotted == 're.compile':
            if isinstance(args[0], str):
                return rx.PatV(rx.compile_pattern(args[0], rx.flag_value(args[1] if len(args) > 1 else kw.get('flags', 0))))
            return None
        if dotted.startswith('re.'):
            r = rx.call_re(I, dotted[3:], args, kw)
            if r is not None:
                return r
        return CmpWorld.ext(self, dotted, args, kw)


def run(u, I, name, pieces, rows, given=None):
    u.attempt(name, lambda: run_(u, I, name, pieces, rows, given))


def run_(u, I, name, pieces, rows, given):
    """rows: the entries written, row by row."""
    t = TextV(pieces)
    ragged = len({len(r) for r in rows}) > 1
    res = u.explore(I, NO + 'split_matrix', [t])
    for i, r in enumerate(res):
        imp = bool(r.taint)
        tag = '%s, %s' % (name, path_tag(i))
        if r.kind == 'raise':
            u.prove(tag + ': no exception', r.pc, False, imprecise=imp)
            continue
        I.heap = dict(r.snap[1])
        v = r.value

        def text(x, want):
            if isinstance(x, str):
                x = TextV([x])
            if not isinstance(x, TextV):
                return False
            x = x.sym_method(I, 'strip', [], {})
            return isinstance(x, TextV) and len(x.pieces) == 1 and x.pieces[0] is want
        k = I.kind_of(v)
        if ragged:
            u.prove(tag + ': rows of different lengths are no matrix', r.pc, k == 'str' and isinstance(v, TextV) and v.key() == t.key(), imprecise=imp, info='%r' % (v,))
            continue
        if len(rows) == 1 and len(rows[0]) == 1:
            u.prove(tag + ': a single entry', r.pc, k == 'str' and text(v, rows[0][0]) or k == 'list' and len(I.items_of(v)) == 1 and text(I.items_of(v)[0], rows[0][0]), imprecise=imp, info='%r' % (v,))
            continue
        want = [x for row in rows for x in row] if len(rows) == 1 or len(rows[0]) == 1 else rows
        if k not in ('list', 'tuple'):
            u.prove(tag + ': the entries', r.pc, False, imprecise=imp, info='%r' % (v,))
            continue
        it = list(I.items_of(v))
        ok = len(it) == len(want)
        for x, y in zip(it, want):
            if isinstance(y, list):
                z = list(I.items_of(x)) if I.kind_of(x) in ('list', 'tuple') else None
                ok = ok and z is not None and len(z) == len(y) and all(text(p, q) for p, q in zip(z, y))
            else:
                ok = ok and I.kind_of(x) == 'str' and text(x, y)
        u.prove(tag + ': every entry in its place', r.pc, bool(ok), imprecise=imp, info='%r' % ([I.items_of(x) if isinstance(x, ListV) else x for x in it],))


def grid(shape, latex=False):
    return [[Entry('e%d%d' % (i, j), latex) for j in range(n)] for i, n in enumerate(shape)]


def shapes():
    out = []
    for r in (1, 2, 3):
        for c in (1, 2, 3):
            out.append((c,) * r)
    return out + [(1, 2), (2, 1), (2, 3), (3, 2), (2, 2, 3), (2, 3, 2), (3, 2, 2), (1, 1, 2), (2, 1, 1), (2, 2, 1)]


def sep(xs, s):
    out = []
    for i, x in enumerate(xs):
        if i:
            out.append(s)
        out += x if isinstance(x, list) else [x]
    return out


def unit_split_matrix_latex(u, part):
    w = MatrixWorld()
    u.timeout_ms = 5000
    I = u.interp(w)
    for env in ('matrix', 'pmatrix', 'bmatrix', 'vmatrix', 'Bmatrix', 'Vmatrix'):
        for sh in shapes() if env in ('pmatrix', 'matrix') else shapes()[3:6]:
            for b in ('', ' ', '\\n') if env == 'pmatrix' else ('',):
                b = b.replace('\\n', '\n')
                for latex in (False, True) if b else (False,):
                    rows = grid(sh, latex)
                    pieces = ['\\begin{%s}' % env + b] + sep([sep(r, b + '&' + b) for r in rows], b + '\\\\' + b) + [b + '\\end{%s}' % env]
                    run(u, I, '%s %s%s' % (env, 'x'.join(map(str, sh)), ' blanks' if b == ' ' else ' lines' if b else '') + (' of LaTeX' if latex else ''), pieces, rows)


def unit_split_matrix_list(u, part):
    w = MatrixWorld()
    u.timeout_ms = 5000
    I = u.interp(w)
    for sh in shapes():
        rows = grid(sh)
        if sh in ((1,),):
            continue
        for b in ('', ' '):
            inner = [['['] + sep(r, ',' + b) + [']'] for r in rows]
            if len(sh) > 1:
                run(u, I, '[[..]] %s%s' % ('x'.join(map(str, sh)), ' blanks' if b else ''), ['['] + sep(inner, ',' + b) + [']'], rows)
            if len(sh) == 1:
                run(u, I, '[..] %d%s' % (sh[0], ' blanks' if b else ''), ['['] + sep(rows[0], ',' + b) + [']'], rows)
