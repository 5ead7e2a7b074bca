"""text_test.py [N] [SEED]: pyvc.text.lacks against concrete texts: where it says that no occurrence of a word touches a chunk, no
concretisation may have one."""
import os
import random
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyvc.text import Chunk, lacks


def main(n, seed):
    r = random.Random(seed)
    yes = no = 0
    for _ in range(n):
        A = 'ab '
        word = ''.join(r.choice(A) for _ in range(r.randint(1, 4)))
        ps = []
        for i in range(r.randint(1, 4)):
            if r.random() < 0.5:
                c = Chunk('c%d' % i, frozenset(r.sample(A, r.randint(1, 3))) if r.random() < 0.8 else None, r.randint(0, 1), r.choice([None, None, 2]))
                if r.random() < 0.4:
                    c.avoid = tuple(''.join(r.choice(A) for _ in range(r.randint(1, 3))) for _ in range(r.randint(1, 2)))
                if r.random() < 0.2:
                    c.solid, c.lo = True, 1
                ps.append(c)
            else:
                ps.append(''.join(r.choice(A) for _ in range(r.randint(1, 3))))
        L = lacks(ps, word)
        yes, no = yes + L, no + (not L)
        if not L:
            continue
        for _ in range(60):
            out, marks = '', []
            for p in ps:
                if isinstance(p, Chunk):
                    for _ in range(20):
                        s = ''.join(r.choice(sorted(p.alpha or frozenset(A))) for _ in range(r.randint(p.lo, 4 if p.hi is None else p.hi)))
                        if not any(w in s for w in getattr(p, 'avoid', ())) and not (getattr(p, 'solid', False) and s != s.strip()):
                            break
                    else:
                        break
                    marks.append((len(out), len(out) + len(s)))
                    out += s
                else:
                    out += p
            else:
                for k in range(len(out)):
                    if out.startswith(word, k):
                        assert not any(a < k + len(word) and k < b for a, b in marks), (ps, word, out)
    print(dict(lacks=yes, may=no))


if __name__ == '__main__':
    main(int(sys.argv[1]) if len(sys.argv) > 1 else 20000, int(sys.argv[2]) if len(sys.argv) > 2 else 1)
