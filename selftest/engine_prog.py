def f_sum(l):
    t = 0
    for x in l:
        t += x
    return t


def f_count(l, a):
    n = 0
    for x in l:
        if x == a:
            n += 1
    return n


def f_break(l, a):
    for i, x in enumerate(l):
        if x == a:
            break
    else:
        return -1
    return i


def f_continue(l):
    out = []
    for x in l:
        if x < 0:
            continue
        out.append(x + 1)
    return out


def f_while(a):
    i = 0
    while i < a:
        i += 1
        if i == 5:
            break
    return i


def f_comp(l, a):
    return [x * 2 for x in l if x > a]


def f_any(l, a):
    return any(x == a for x in l), all(x > a for x in l)


def f_slice(l):
    return l[1:], l[:-1], l[::2], l[-2:]


def f_slice2(l):
    return l[::-1]


def f_index(l, a):
    return l[a]


def f_neg(l):
    return l[-1]


def f_setitem(l, a):
    l[0] = a
    return l


def f_alias(l):
    m = l
    m.append(9)
    return l


def f_aug(l):
    m = l
    m += [4]
    return l


def f_aug2(l):
    m = l
    m = m + [4]
    return l, m


def f_copy(l):
    m = l[:]
    m.append(1)
    return len(l), len(m)


def f_copy2(l):
    m = list(l)
    m.insert(0, 5)
    return l, m


def f_try(a):
    try:
        return 10 // a
    except ZeroDivisionError:
        return None
    finally:
        a = 3


def f_try2(l, a):
    try:
        x = l[a]
    except IndexError:
        x = 'none'
    else:
        x = x + 1
    return x


def f_finally(a):
    out = []
    try:
        out.append(1)
        if a > 1:
            raise ValueError('x')
        out.append(2)
    except ValueError:
        out.append(3)
    finally:
        out.append(4)
    return out


def f_nested(a):
    def g(x, y=2):
        return x * y + a
    return g(3), g(1, y=a)


def f_closure(l):
    fs = [lambda x, k=k: x + k for k in range(3)]
    return [f(1) for f in fs]


def f_closure2(a):
    fs = [lambda x: x + k for k in range(3)]
    return [f(a) for f in fs]


def f_nonlocal(l):
    n = 0

    def inc():
        nonlocal n
        n += 1
    inc()
    inc()
    return n + len(l)


def f_star(l):
    def g(*xs, k=0, **kw):
        return len(xs), k, sorted(kw)
    return g(1, 2, k=3), g(*[1, 2, 3]), g(z=1, k=2)


def f_dict(a, b):
    d = {'x': a, 'y': b}
    d['x'] = d['x'] + 1
    d.update({'z': 3})
    return d.get('x'), d.get('w'), d.get('w', 5), 'y' in d, len(d), sorted(d), d


def f_dict2(a):
    d = {}
    d[a] = 1
    d[0] = 2
    return d.get(0), a in d


def f_dict3(l):
    d = {}
    for x in ['a', 'b', 'a']:
        d[x] = d.get(x, 0) + 1
    return [(k, v) for k, v in d.items()]


def f_dict4(a):
    d = dict(x=a)
    e = d
    e['y'] = 2
    return d.pop('x'), d.setdefault('q', a), list(d.keys()), list(d.values())


def f_set(a, b):
    s = {a, b}
    return len(s), a in s, 3 in s


def f_set2(a, b, c):
    s = set([a, b, c])
    return len(list(s)), sum(s) if len(s) == 3 else 0


def f_set3(a, b):
    return {a, b} == {b, a}, {a} <= {a, b}, {a, b} - {b} == {a}, {a} & {b} == set(), {a} | {b} == {a, b}


def f_set4(l):
    return len(set(l)) == len(l)


def f_set5(l, a):
    return a in set(l), set(l) == {a}


def f_unpack(l):
    a, b = l
    return b, a


def f_unpack2(l):
    a, *r = l
    return a, r


def f_unpack3(l):
    *r, a = l
    return r, a


def f_swap(a, b):
    a, b = b, a + b
    return a, b


def f_chain(a, b, c):
    return a < b < c, a <= b == c, a != b > c


def f_tern(a, b):
    return a if a > b else b, a or b, a and b, not a


def f_andor(a, b):
    x = a == 0 or 10 // a > 1
    y = a and b or 5
    return x, y


def f_arith(a, b):
    return a + b, a - b, a * b, -a, +b, abs(a), a ** 2


def f_div(a, b):
    return a // b, a % b


def f_divmod(a, b):
    return divmod(a, b)


def f_truediv(a, b):
    return a / b == 1


def f_minmax(a, b, c):
    return min(a, b, c), max(a, b), min([a, c]), max(a, b, c)


def f_minmaxl(l):
    return min(l), max(l)


def f_suml(l):
    return sum(l), sum(l, 5)


def f_sorted(a, b, c):
    return sorted([a, b, c]), sorted([a, b, c], reverse=True)


def f_sortkey(l):
    return sorted([1, -3, 2], key=lambda x: -x), sorted(['b', 'a', 'cc'], key=len)


def f_methods(a, b):
    l = [a, b, 3]
    l.append(4)
    l.extend([5, 6])
    l.insert(1, 9)
    x = l.pop()
    y = l.pop(0)
    l.reverse()
    return l, x, y


def f_remove(l, a):
    l.remove(a)
    return l


def f_lindex(l, a):
    return l.index(a)


def f_lcount(l, a):
    return l.count(a)


def f_in(l, a):
    return a in l, a not in l


def f_del(l):
    del l[0]
    return l


def f_zip(l):
    return list(zip(l, [1, 2])), len(list(zip(l, l[1:])))


def f_zip2(l, m):
    return all(x == y for x, y in zip(l, m))


def f_range(a):
    return list(range(a)), list(range(1, 6, 2)), list(range(3, 0, -1)), len(range(a))


def f_rangeloop(l):
    out = []
    for i in range(len(l)):
        out.append(l[i] - i)
    return out


def f_rangedown(l):
    out = []
    for i in range(len(l) - 1, -1, -1):
        out.append(l[i])
    return out


def f_reversed(l):
    return list(reversed(l))


def f_reversedloop(l):
    t = 0
    for x in reversed(l):
        t = 2 * t + x
    return t


def f_enum(l):
    t = 0
    for i, x in enumerate(l, 1):
        t += i * x
    return t


def f_map(l):
    return list(map(lambda x: x + 1, l)), [x for x in filter(lambda x: x > 1, l)]


def f_nestedloop(l, m):
    n = 0
    for x in l:
        for y in m:
            if x == y:
                n += 1
    return n


def f_nestedbreak(l, m):
    for x in l:
        for y in m:
            if x == y:
                break
        else:
            return False
    return True


def f_flat(l):
    return [y for x in [l, l] for y in x]


def f_eq(l, m):
    return l == m, l != m, l is m


def f_listlt(a, b):
    return (a, b) < (b, a), [a] == [b]


def f_bool(a, p, q):
    return p and q, p or q, p is True, p == 1, bool(a), p is q


def f_boolsum(p, q):
    return p + q, sum([p, q]), int(p)


def f_none(a):
    x = None if a == 0 else a
    return x is None, x or 3, x is not None and x > 1


def f_isinst(a):
    return isinstance(a, int), isinstance(a, str), isinstance([a], (list, tuple)), isinstance(True, int), isinstance(a, (int, float))


def f_raise(a):
    if a > 1:
        raise ValueError('big')
    return a


def f_raise2(a):
    try:
        if a == 1:
            raise KeyError('k')
        elif a == 2:
            raise TypeError
        return 0
    except (KeyError, IndexError):
        return 1
    except Exception as e:
        return 2


def f_reraise(a):
    try:
        return 1 // a
    except Exception:
        raise


def f_assert(a):
    assert a > 0, 'positive'
    return a


def f_lookup(s):
    return {'a': 1, 'ab': 2}.get(s, 0)


def f_str(s):
    return s.strip(), s.upper(), s.split(','), s.replace('a', 'xx'), s[:1], s[1:], s[::-1], len(s), s.find('b'), s.count('a'), s.startswith('a'), s + 'z', s * 2, 'a' in s, s == 'ab'


def f_strloop(s):
    n = 0
    out = ''
    for ch in s:
        if ch == 'a':
            n += 1
        else:
            out += ch
    return n, out


def f_join(s):
    return ','.join([s, 'q']), '-'.join(s), '%s:%d' % (s, 3), '{}{}'.format(s, 1), f'{s}!{1 + 1}'


def f_int(s):
    return int(s)


def f_lower(s):
    return [c.isdigit() for c in s], s.isdigit(), s.lower().title()


def f_walrus(l):
    if (n := len(l)) > 1:
        return n
    return 0


def f_gen(l):
    def g():
        for x in l:
            yield x + 1
    return list(g())


def f_multi(l):
    lo, hi = None, None
    for x in l:
        if lo is None or x < lo:
            lo = x
        if hi is None or x > hi:
            hi = x
    return lo, hi


def f_prev(l):
    prev = None
    ok = True
    for x in l:
        if prev is not None and x < prev:
            ok = False
        prev = x
    return ok


def f_lastvar(l):
    x = 5
    for x in l:
        pass
    return x


def f_flag(l, a):
    found = False
    for x in l:
        if x == a:
            found = True
    return found


def f_early(l, a):
    for x in l:
        if x == a:
            return 'yes'
    return 'no'


def f_whilelist(l):
    n = 0
    while l:
        l = l[1:]
        n += 1
    return n


def f_whilepop(l):
    t = 0
    while l:
        t += l.pop()
    return t


def f_two(l, m):
    i = 0
    while i < len(l) and i < len(m) and l[i] == m[i]:
        i += 1
    return i


def f_mut_in_loop(l):
    out = []
    row = []
    for x in l:
        row.append(x)
        if x == 1:
            out.append(row)
            row = []
    return out, row


def f_sharedrow(a):
    row = [0]
    grid = [row] * 2
    grid[0][0] = a
    return grid


def f_default(a):
    def g(x, acc=[]):
        acc.append(x)
        return len(acc)
    return g(a), g(a)


def f_tuple(a, b):
    t = (a, b)
    return t[0], t[-1], t + (3,), len(t), t * 2, a in t, t.index(b), t == (a, b)


def f_cond_append(l, p):
    out = [] if p else [0]
    for x in l:
        if x > 0 or p:
            out.append(x)
    return out


def f_listmul(a):
    return [0] * a, [1, 2] * 2


def f_strmul(a):
    return 'ab' * a


def f_mixed(a, s):
    return a + s


def f_cmpnone(a):
    return None < a


def f_recursion(a):
    return 0 if a <= 0 else a + f_recursion(a - 1)


def f_global(a):
    global G
    G = a
    return _g() + 1


def _g():
    return G


G = 0


class C:
    k = 3

    def __init__(self, x):
        self.x = x

    def get(self, d=1):
        return self.x + d + self.k


def f_class(a):
    c = C(a)
    c.x += 1
    return c.get(), c.get(d=5)


def f_getattr(a):
    c = C(a)
    return getattr(c, 'x'), getattr(c, 'nope', 7), hasattr(c, 'y')


def f_dictcomp(l):
    return {k: v for k, v in zip(['a', 'b'], [1, 2])}, {x for x in [1, 1, 2]} == {1, 2}


def f_next(l):
    return next((x for x in l if x > 1), None), next(iter(l), 'e')


def f_ifexp_list(l, a):
    return [x if x > a else -x for x in l]


def f_sumgen(l):
    return sum(1 for x in l if x > 0), len([x for x in l if x])


def f_ass_loop_tuple(l):
    s, t = 0, 1
    for x in l:
        s, t = t, s + x
    return s, t


def f_round(a):
    return round(a / 2), int(a / 2), a / 2 == int(a / 2)


def f_lambda_default(a):
    g = lambda x=a: x + 1
    a = 100
    return g()


def f_str_cmp(s):
    return s < 'b', s >= 'a', s != '', not s, s in ('a', 'b'), s in 'abc'


def f_split(s):
    x, sep, y = s.partition(',')
    return x, sep, y, s.rsplit(',', 1), s.split(), s.lstrip(), s.rstrip(), s.rfind('a')


def f_splitunpack(s):
    a, b = s.split(' ')
    return a + b
