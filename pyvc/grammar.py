"""The parse-tree interface of the generated ANTLR parser, read from /repo on every run.

PS.g4 gives the alternatives of every rule (repetitions enumerated up to a bound); gen/PSParser.py gives the accessor methods and
labels that the context classes really have, and gen/PSLexer.py the token numbers.  That the generated parser produces exactly the
trees of PS.g4 is an assumption."""
import ast
import itertools
import os
import re
import warnings

STAR = (0, 1, 2)
PLUS = (1, 2, 3)
OPT = (0, 1)


class GrammarError(Exception):
    pass


def strip_comments(s):
    s = re.sub(r'/\*.*?\*/', '', s, flags=re.S)
    out, i, q = [], 0, False
    while i < len(s):
        c = s[i]
        if q:
            out.append(c)
            if c == '\\':
                out.append(s[i + 1])
                i += 1
            elif c == "'":
                q = False
        elif c == "'":
            q = True
            out.append(c)
        elif s.startswith('//', i):
            j = s.find('\n', i)
            i = len(s) if j < 0 else j
            continue
        else:
            out.append(c)
        i += 1
    return ''.join(out)


TOK = re.compile(r"\s*('(?:\\.|[^'\\])*'|->|[A-Za-z_]\w*|\[(?:\\.|[^\]\\])*\]|[:;|()?*+=~.\-{}]|\S)")


def unquote(t):
    return re.sub(r'\\(.)', lambda m: m.group(1), t[1:-1])


class Grammar:
    def __init__(self, root):
        p = os.path.join(root, 'latex2sympy')
        self.bodies = {}
        toks = TOK.findall(strip_comments(open(os.path.join(p, 'PS.g4'), encoding='utf-8').read()))
        i = 0
        while i < len(toks):
            if toks[i] in ('grammar', 'options'):
                while toks[i] not in (';', '}'):
                    i += 1
                if toks[i] == '}' or True:
                    i += 1
                    if i < len(toks) and toks[i] == '}':
                        i += 1
                continue
            if toks[i] == '}':
                i += 1
                continue
            if toks[i] == 'fragment':
                i += 1
            name = toks[i]
            if toks[i + 1] != ':':
                raise GrammarError('rule %s' % name)
            j = i + 2
            while toks[j] != ';':
                j += 1
            self.bodies[name] = toks[i + 2:j]
            i = j + 1
        self.alts_cache = {}
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.parse(open(os.path.join(p, 'gen', 'PSParser.py'), encoding='utf-8').read())
            lex = ast.parse(open(os.path.join(p, 'gen', 'PSLexer.py'), encoding='utf-8').read())
        self.acc, self.labels = {}, {}
        self.rulename = {}
        for c in tree.body:
            if isinstance(c, ast.ClassDef) and c.name == 'PSParser':
                for k in c.body:
                    if isinstance(k, ast.ClassDef) and k.name.endswith('Context'):
                        self.read_ctx(k)
        self.toknum = {}
        for c in lex.body:
            if isinstance(c, ast.ClassDef) and c.name == 'PSLexer':
                for k in c.body:
                    if isinstance(k, ast.Assign) and isinstance(k.value, ast.Constant) and isinstance(k.value.value, int):
                        self.toknum[k.targets[0].id] = k.value.value

    def read_ctx(self, k):
        rule = k.name[:-len('Context')]
        rule = rule[0].lower() + rule[1:]
        acc, labels = {}, {}
        for m in k.body:
            if not isinstance(m, ast.FunctionDef):
                continue
            if m.name == '__init__':
                for st in m.body:
                    if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Attribute) and isinstance(st.value, ast.Constant) and st.value.value is None:
                        labels[st.targets[0].attr] = True
                continue
            calls = [n for n in ast.walk(m) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr.startswith('get')]
            if not calls or m.name in ('getRuleIndex', 'enterRule', 'exitRule'):
                continue
            call = calls[0]
            target = call.args[0].attr
            if 'Token' in call.func.attr:
                acc[m.name] = ('tok', target, len(m.args.args) > 1)
            else:
                t = target[:-len('Context')]
                acc[m.name] = ('rule', t[0].lower() + t[1:], len(m.args.args) > 1)
        self.acc[rule] = acc
        self.labels[rule] = labels

    # ------------------------------------------------------------ alternatives
    def alts(self, rule):
        """The child sequences of a rule: tuples of (kind, name, label), kind in rule/tok/lit."""
        if rule not in self.alts_cache:
            body = self.bodies[rule]
            r, i = self.p_alt(body, 0)
            if i != len(body):
                raise GrammarError(rule)
            seen = []
            for s in r:
                if s not in seen:
                    seen.append(s)
            self.alts_cache[rule] = seen
        return self.alts_cache[rule]

    def p_alt(self, t, i):
        out = []
        while True:
            r, i = self.p_seq(t, i)
            out += r
            if i < len(t) and t[i] == '|':
                i += 1
                continue
            return out, i

    def p_seq(self, t, i):
        seqs = [()]
        while i < len(t) and t[i] not in ('|', ')'):
            r, i = self.p_elem(t, i)
            seqs = [a + b for a in seqs for b in r]
            if len(seqs) > 20000:
                raise GrammarError('too many alternatives')
        return seqs, i

    def p_elem(self, t, i):
        label = None
        if i + 1 < len(t) and t[i + 1] == '=' and re.match(r'\w+$', t[i]):
            label = t[i]
            i += 2
        if t[i] == '(':
            r, i = self.p_alt(t, i + 1)
            if t[i] != ')':
                raise GrammarError('group')
            i += 1
        elif t[i].startswith("'"):
            r = [(('lit', unquote(t[i]), label),)]
            i += 1
        else:
            n = t[i]
            r = [(('tok' if n[0].isupper() else 'rule', n, label),)]
            i += 1
        if label and len(r) != 1:
            r = [tuple((k, n, label) for k, n, _ in s) for s in r]
        if i < len(t) and t[i] in '?*+':
            reps = {'?': OPT, '*': STAR, '+': PLUS}[t[i]]
            i += 1
            if i < len(t) and t[i] == '?':
                i += 1
            out = []
            for n in reps:
                for combo in itertools.product(r, repeat=n):
                    s = tuple(x for y in combo for x in y)
                    if s not in out:
                        out.append(s)
            r = out
        return r, i

    def literals(self, tok):
        """The texts of a token that is an alternative of literals, or None."""
        b = self.bodies.get(tok)
        if b is None:
            return None
        out = []
        for x in b:
            if x == '|':
                continue
            if x == '->':
                return None
            if x.startswith("'"):
                out.append(unquote(x))
            elif x in self.bodies and x[0].isupper():
                r = self.literals(x)
                if r is None:
                    return None
                out += r
            else:
                return None
        # a sequence (not an alternative) of literals would have adjacent elements
        for a, c in zip(b, b[1:]):
            if a != '|' and c != '|':
                return None
        return out
