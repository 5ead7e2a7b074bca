"""check.py PROP: decides one property on the current tree of /repo (VERIF_REPO overrides, for scratch copies).

1. contracts: every unit of the property is turned into obligations from the source as it is now and discharged by z3/cvc5;
2. bounded companion: the real code on concrete inputs, to find failing inputs and to check what the proofs assume.

exit 0: nothing breaks the property; exit 1 + VIOLATION line: it is broken; exit 2: the check itself failed."""
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = os.environ.get('VERIF_PY', '/opt/venv/bin/python')
TRUSTED = ['pyvc (this directory): the translation of Python source to obligations', 'z3 / cvc5',
           'CPython semantics of the covered subset as pyvc models it (mathematical integers; floats in comparisons as reals)']


def work(mod, fn, part, budget, path):
    sys.setrecursionlimit(20000)
    from pyvc.unit import run_unit
    try:
        m = importlib.import_module('specs.' + mod)
        r = run_unit(mod, fn, lambda u: getattr(m, fn)(u, part), fn, budget)
    except Exception as e:
        r = dict(unit=mod, func=fn, status='error: %s: %s' % (type(e).__name__, e), results=[], paths=0, wall=0)
    with open(path + '.tmp', 'w') as f:
        json.dump(r, f, default=str)
    os.rename(path + '.tmp', path)


def run_units(units, part, budget, tmp, total):
    t0 = time.time()
    ctx = mp.get_context('spawn')
    todo = list(enumerate(units))
    live, out = [], {}
    while todo or live:
        while todo and len(live) < 8:
            i, (mod, fn) = todo.pop(0)
            if time.time() - t0 > total:
                out[i] = dict(unit=mod, func=fn, status='error: no time left', results=[], paths=0, wall=0)
                continue
            path = os.path.join(tmp, 'unit-%d.json' % i)
            p = ctx.Process(target=work, args=(mod, fn, part, budget, path))
            p.start()
            live.append((i, p, path, time.time()))
        time.sleep(0.05)
        for L in list(live):
            i, p, path, t = L
            if not p.is_alive() or time.time() - t > budget + 90 or time.time() - t0 > total:
                if p.is_alive():
                    p.kill()
                p.join()
                live.remove(L)
                try:
                    out[i] = json.load(open(path))
                except (OSError, ValueError):
                    out[i] = dict(unit=units[i][0], func=units[i][1], status='error: stopped (%s)' % p.exitcode, results=[], paths=0, wall=round(time.time() - t, 1))
    return [out[i] for i in sorted(out)]


def bounded(prop, tier, seed, limit, tmp):
    out = os.path.join(tmp, 'bounded-%s.json' % tier)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    try:
        p = subprocess.run([PY, '-W', 'ignore', '-B', os.path.join(HERE, 'bounded', 'run.py'), prop, '--tier', tier, '--seed', str(seed), '--out', out, '--limit', str(limit)],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, timeout=limit + 100)
    except subprocess.TimeoutExpired:
        return dict(error='stopped', failures=[], done=0, cases=0, errors=[], skipped={})
    if p.returncode:
        return dict(error=(p.stderr or '')[-1500:], failures=[], done=0, cases=0, errors=[], skipped={})
    return json.load(open(out))


def findings(prop):
    """The committed list: `finding: property=<id> case=<json> :: <what>` and `fixed: property=<id> <commit> <what>`."""
    r = []
    try:
        for l in open(os.path.join(HERE, 'KNOWN_FINDINGS')):
            if l.startswith('finding: property=%s case=' % prop):
                c, what = l.split(' case=', 1)[1].split(' :: ', 1)
                r.append((json.loads(c), what.strip()))
    except OSError:
        pass
    return r


def same_case(a, b):
    strip = lambda c: [c[0], {k: v for k, v in c[1].items() if k not in ('why', 'rs')}]
    return strip(a) == strip(b)


def replay_case(case, tmp):
    f = os.path.join(tmp, 'finding.json')
    json.dump(dict(case=case, hashseed=0), open(f, 'w'))
    p = subprocess.run([PY, '-W', 'ignore', '-B', os.path.join(HERE, 'bounded', 'run.py'), '--replay', f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=200)
    return p.returncode == 1


def main(prop):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = 'thorough' if tier == 'thorough' else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    from units import UNITS
    from bounded_info import INFO
    units = UNITS.get(prop, [])
    tmpd = tempfile.TemporaryDirectory(prefix='verif-')
    tmp = tmpd.name
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
    ev_path = os.path.join(HERE, 'evidence', prop + '.json')
    if os.path.exists(ev_path):
        os.remove(ev_path)
    known = findings(prop)
    for c, what in known:
        if replay_case(c, tmp):
            print('KNOWN-FINDING: property=%s %s' % (prop, what))
    # concrete search first, on an otherwise idle machine (the code under test has wall-clock limits of its own)
    B = bounded(prop, tier, seed, 170 if tier == 'quick' else 1500, tmp)
    fails = [f for f in B['failures'] if not any(same_case(f['case'], c) for c, _ in known)]
    R = run_units(units, prop, 200 if tier == 'quick' else 1200, tmp, 420 if tier == 'quick' else 6000) if units else []
    refuted, undecided, notes, errors = [], [], [], []
    n_obl = n_ok = n_cover = 0
    backends, stime = {}, 0.0
    for r in R:
        if r['status'] != 'ok':
            (errors if r['status'].startswith('error') else notes).append('%s: %s' % (r['func'], r['status'].strip().splitlines()[-1][:300] if r['status'].strip() else ''))
        for o in r['results']:
            if o.get('cover'):
                n_cover += 1
                if o['result'] == 'vacuous':
                    notes.append('vacuous: %s / %s' % (r['func'], o['name']))
                continue
            n_obl += 1
            stime += o['time']
            if o['result'] == 'proved':
                n_ok += 1
                backends[o['backend']] = backends.get(o['backend'], 0) + 1
            elif o['result'] == 'refuted':
                refuted.append((r, o))
            else:
                undecided.append('%s / %s: %s' % (r['func'], o['name'], o['result']))
    if (refuted or undecided or notes or errors) and not fails:
        # an obligation that is not discharged: look longer for an input
        B2 = bounded(prop, 'thorough', seed + 1, max(60, min(200, 700 - (time.time() - t0))), tmp)
        fails = [f for f in B2['failures'] if not any(same_case(f['case'], c) for c, _ in known)]
        B['thorough_search'] = {k: B2.get(k) for k in ('cases', 'done', 'unfinished', 'wall')}
    viol = None
    rep = os.path.join(HERE, 'replay', '%s.json' % prop)
    if os.path.exists(rep):
        os.remove(rep)
    obl_txt = [dict(unit=r['func'], source=r.get('lines'), obligation=o['name'], result=o['result'], backend=o['backend'], goal=o.get('goal'), path=o.get('path'),
                    counterexample=o.get('model'), info=o.get('info')) for r, o in refuted[:20]]
    if fails:
        f = fails[0]
        json.dump(dict(property=prop, case=f['case'], hashseed=f['hashseed'], message=f['message'], how_to_replay='%s %s/bounded/run.py --replay %s' % (PY, HERE, rep),
                       other_failing_cases=fails[1:6], failed_obligations=obl_txt), open(rep, 'w'), indent=1, default=str)
        print('FAILS: %s' % f['message'])
        viol = 'VIOLATION property=%s replay=%s' % (prop, rep)
    elif refuted:
        json.dump(dict(property=prop, failed_obligations=obl_txt), open(rep, 'w'), indent=1, default=str)
        viol = 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rep)
    for r, o in refuted[:10]:
        print('OBLIGATION REFUTED: %s / %s' % (r['func'], o['name']))
    for x in (notes + errors + undecided)[:15]:
        print('NOTE undecided: %s' % x)
    for c, m in B.get('errors', [])[:3]:
        print('NOTE bounded: %s %s' % (m, json.dumps(c)[:200]))
    info = INFO.get(prop, {})
    lines, inl, used, ext, ass = {}, set(), set(), {}, set()
    for r in R:
        lines.update(r.get('lines') or {})
        inl.update(r.get('inlined') or [])
        used.update(r.get('contracts_used') or [])
        ass.update(r.get('assumed') or [])
        for k, v in (r.get('external') or {}).items():
            ext[k] = ext.get(k, 0) + (v if isinstance(v, int) else 1)
    ev = dict(property=prop, tier=tier, seed=seed, level='proof' if units else 'exploration', wall_s=round(time.time() - t0, 1), violations=1 if viol else 0,
              coverage=dict(obligations=n_obl, discharged=n_ok, refuted=len(refuted), undecided=undecided + notes + errors, cover_checks=n_cover, backends=backends,
                            solver_time_s=round(stime, 2), checker_cmd='cd /verif && python3-vt check.py %s' % prop, trusted_base=TRUSTED,
                            functions_under_contract=lines, inlined_functions=sorted(inl), contracts_assumed_at_calls_and_proved_in_other_units=sorted(used),
                            external_calls_left_uninterpreted=ext,
                            units=[dict(unit=r['unit'], func=r['func'], status=r['status'].splitlines()[0][:200], paths=r['paths'], obligations=len(r['results']), wall_s=r['wall']) for r in R],
                            bounded_companion=dict(label='bounded: concrete executions of the real code, never counted as proved', evaluations=B.get('done', 0), distinct_cases=B.get('cases', 0),
                                                   kinds=B.get('kinds'), skipped=B.get('skipped'), not_finished=B.get('unfinished'), case_errors=[m for _, m in B.get('errors', [])][:10],
                                                   bound=info.get('bound', ''), wall_s=B.get('wall'), error=B.get('error')),
                            evaluations=B.get('done', 0), distinct_nontrivial=B.get('cases', 0), rule=info.get('bound', 'see DESIGN.md'), samples=B.get('samples', [])[:6]),
              assumptions=sorted(ass) + info.get('assumptions', []))
    json.dump(ev, open(ev_path, 'w'), indent=1, default=str)
    print('%s: %d obligations, %d discharged, %d refuted, %d undecided; bounded companion %d cases, %d failing; %.0f s' % (
        prop, n_obl, n_ok, len(refuted), n_obl - n_ok - len(refuted), B.get('done', 0), len(fails), time.time() - t0))
    tmpd.cleanup()
    if viol:
        print(viol)
        return 1
    if n_obl == 0 and not B.get('done'):
        print('ERROR: nothing was checked')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1]))
