"""Driver of the runtime oracle.

  run.py PROP --tier quick --seed 1 --out FILE --limit SECONDS     run the cases of a property
  run.py --shard FILE                                              (internal) run the cases in FILE, one result per line
  run.py --outcome                                                 (internal) history probe on stdin
  run.py --replay FILE                                             execute the case of a replay file again"""
import json
import os
import random
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(3000)


def shard(path):
    import lib
    out = os.fdopen(os.dup(1), 'w')
    cases = json.load(open(path))
    for i, c in cases:
        t = time.time()
        try:
            r = lib.run_case(c)
        except lib.Skip as e:
            r = ['skip', str(e)]
        except (KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except BaseException as e:
            r = ['error', '%s: %s' % (type(e).__name__, str(e)[:300])]
        out.write(json.dumps([i, r, round(time.time() - t, 3)]) + '\n')
        out.flush()


def outcome():
    import lib
    hist, probes = json.load(sys.stdin)
    lib.preload()
    for h in hist:
        lib.outcome(h)
    sys.stdout.write(json.dumps([alone(lib, q) for q in probes]))


def alone(lib, q):
    """The outcome of one call in a process of its own, which goes on from the present state."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                v = lib.outcome(q)
            except lib.Skip:
                v = None
            os.write(w, json.dumps(v).encode()[:60000])
        finally:
            os._exit(0)
    os.close(w)
    b = b''
    while True:
        x = os.read(r, 65536)
        if not x:
            break
        b += x
    os.close(r)
    os.waitpid(pid, 0)
    try:
        return json.loads(b)
    except ValueError:
        return None


def py():
    return [sys.executable, '-W', 'ignore', '-B', os.path.join(HERE, 'run.py')]


def run_cases(cases, tmp, hashseed, tag):
    f = os.path.join(tmp, 'shard-%s.json' % tag)
    json.dump(cases, open(f, 'w'))
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1')
    o = open(f + '.out', 'w')
    return subprocess.Popen(py() + ['--shard', f], stdout=o, stderr=subprocess.DEVNULL, env=env, start_new_session=True), f + '.out'


def read(out):
    r = []
    for l in open(out):
        try:
            r.append(json.loads(l))
        except ValueError:
            pass
    return r


def stop(p):
    try:
        os.killpg(p.pid, 9)
    except OSError:
        pass
    p.wait()


def main(prop, tier, seed, out, limit):
    t0 = time.time()
    import gens
    rng = random.Random('%s-%d' % (prop, seed))
    cases = gens.GEN[prop](rng, tier)
    seen, uniq = set(), []
    for c in cases:
        k = json.dumps(c, sort_keys=True)
        if k not in seen:
            seen.add(k)
            uniq.append(c)
    order = list(range(len(uniq)))
    n = min(8, max(1, len(uniq) // 4))
    res = dict(prop=prop, cases=len(uniq), generated=len(cases), failures=[], skipped={}, errors=[], done=0, unfinished=0)
    with tempfile.TemporaryDirectory() as tmp:
        # dealt round robin; a shard stuck in one case is stopped, its remaining cases run again elsewhere
        queues = [[(i, uniq[i]) for i in order[s::n]] for s in range(n)]
        results = {}
        times = {}
        live = []
        for s, q in enumerate(queues):
            p, o = run_cases(q, tmp, seed * 100 + s, s)
            live.append([p, o, q, s, time.time(), 0])
        gen = 0
        while live:
            time.sleep(0.05)
            for L in list(live):
                p, o, q, s, last, cnt = L
                rs = read(o)
                if len(rs) != cnt:
                    L[4], L[5] = time.time(), len(rs)
                ended = p.poll() is not None
                stuck = time.time() - L[4] > (90 if prop != 'P15' else 200)
                if ended or stuck or time.time() - t0 > limit:
                    if not ended:
                        stop(p)
                    rs = read(o)
                    for i, r, dt in rs:
                        results[i] = r
                        times[i] = dt
                    live.remove(L)
                    rest = [c for c in q if c[0] not in results]
                    if rest and time.time() - t0 < limit:
                        results[rest[0][0]] = ['error', 'no answer']      # the one it was working on
                        rest = rest[1:]
                        if rest:
                            gen += 1
                            p2, o2 = run_cases(rest, tmp, seed * 100 + s, '%d-%d' % (s, gen))
                            live.append([p2, o2, rest, s, time.time(), 0])
        fails = []
        for i, r in sorted(results.items()):
            if r is None:
                res['done'] += 1
            elif isinstance(r, list) and r[0] == 'skip':
                res['skipped'][r[1]] = res['skipped'].get(r[1], 0) + 1
            elif isinstance(r, list):
                res['errors'].append([uniq[i], r[1]])
            else:
                res['done'] += 1
                fails.append((i, r))
        res['unfinished'] = len(uniq) - len(results)
        # confirm each failure alone, in two fresh processes (a loaded machine must not decide)
        conf = []
        for i, r in fails[:8]:
            s = order.index(i) % n
            ok = []
            for k in range(2):
                c = [uniq[i][0], dict(uniq[i][1], rs=12345 + 17 * k)]
                p, o = run_cases([(i, c)], tmp, seed * 100 + s, 'c%d-%d' % (i, k))
                try:
                    p.wait(timeout=120)
                except subprocess.TimeoutExpired:
                    stop(p)
                x = read(o)
                ok.append(x[0][1] if x else ['error', 'no answer'])
            if all(isinstance(x, str) for x in ok):
                conf.append(dict(case=uniq[i], message=r, hashseed=seed * 100 + s))
            else:
                res['errors'].append([uniq[i], 'failed once, not confirmed: %s' % r])
        res['failures'] = conf
        res['failed_total'] = len(fails)
        res['slowest'] = [[times[i], uniq[i]] for i in sorted(times, key=lambda i: -times[i])[:5]]
    smp = rng.sample(range(len(uniq)), min(6, len(uniq)))
    res['samples'] = [uniq[i] for i in smp]
    res['kinds'] = {}
    for c in uniq:
        res['kinds'][c[0]] = res['kinds'].get(c[0], 0) + 1
    res['wall'] = round(time.time() - t0, 1)
    json.dump(res, open(out, 'w'))


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == '--shard':
        shard(a[1])
    elif a[0] == '--outcome':
        outcome()
    elif a[0] == '--replay':
        d = json.load(open(a[1]))
        if 'case' not in d:
            print(json.dumps(d, indent=1)[:6000])
            sys.exit(1)
        if 'PYTHONHASHSEED' not in os.environ:
            os.environ['PYTHONHASHSEED'] = str(d.get('hashseed', 0))
            os.execv(sys.executable, py() + a)
        import lib
        r = lib.run_case(d['case'])
        print(r or 'holds now')
        sys.exit(1 if r else 0)
    else:
        import argparse
        P = argparse.ArgumentParser()
        P.add_argument('prop')
        P.add_argument('--tier', default='quick')
        P.add_argument('--seed', type=int, default=1)
        P.add_argument('--out', default='/dev/stdout')
        P.add_argument('--limit', type=float, default=200)
        x = P.parse_args(a)
        main(x.prop, x.tier, x.seed, x.out, x.limit)
