#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/props.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, 'bin'))
from props import PROPS  # noqa: E402

ids = [json.loads(l)['id'] for l in open(os.path.join(VERIF, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    p = PROPS.get(i)
    if p is None:
        na.append({'property': i, 'reason': 'The check is not built yet.'})
        continue
    checks.append({
        'property': i,
        'quick_cmd': 'python3 bin/vrun.py ' + i,
        'thorough_cmd': 'VERIF_TIER=thorough python3 bin/vrun.py ' + i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': p['technique'],
        'level': p.get('level', 'exploration'),
        'level_note': p['note'],
    })
m = {
    'version': 1,
    'setup_cmd': 'python3 bin/setup.py',
    'checks': checks,
    'not_applicable': na,
    'notes': 'Every check builds the FMUs (or the import library) from /repo\'s working tree with sanitizers into a private directory below /verif/.work, '
             'runs workload drivers from /verif/harness against them and judges what the monitors observed. No hooks in /repo are needed: '
             'all properties are observed at the FMI and import library interfaces.',
}
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
