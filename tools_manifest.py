"""Writes MANIFEST.json from the tables of the checks (run by hand after changing them)."""
import json
from units import UNITS
from notes import LEVEL_NOTE, NOT_APPLICABLE, TECHNIQUE

props = [json.loads(l) for l in open('properties.jsonl')]
checks = []
for p in props:
    i = p['id']
    if i in NOT_APPLICABLE:
        continue
    checks.append(dict(property=i, quick_cmd='python3-vt check.py %s' % i, thorough_cmd='VERIF_TIER=thorough python3-vt check.py %s' % i, evidence_file='evidence/%s.json' % i,
                       technique=TECHNIQUE, level='proof' if UNITS.get(i) else 'exploration', level_note=LEVEL_NOTE[i]))
m = dict(version=1, setup_cmd='python3-vt setup_check.py', checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in sorted(NOT_APPLICABLE.items())],
         notes='No hooks in /repo: contracts are sidecar specifications (specs/), obligations are regenerated from the source of /repo on every run.')
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
