"""Writes MANIFEST.json from the scenario modules present."""
import json
import os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
NOTE = ('Symbolic execution of the real Python source over real arithmetic; every path condition and every obligation is decided by exact '
        'algebra (normal form) or z3 over all inputs in the stated boxes; sizes are enumerated as listed in evidence bounds. '
        'Trusted: the numpy/scipy/pandas stand-ins (validated per path against the real packages), real instead of floating-point arithmetic, '
        'non-zero divisors and non-singular influence matrices as path assumptions.')
EXTRA = {}
props = [json.loads(l) for l in open(os.path.join(D, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
    elif os.path.exists(os.path.join(D, 'props', i.lower() + '.py')):
        checks.append({'property': i, 'quick_cmd': './check ' + i, 'thorough_cmd': './check %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': 'symbolic execution of the real source, SMT (z3) decision per path',
                       'level': 'model_checking', 'level_note': NOTE + EXTRA.get(i, '')})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks are needed in /repo.'}, open(os.path.join(D, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
