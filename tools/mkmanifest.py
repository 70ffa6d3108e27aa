"""Writes MANIFEST.json for the properties that have a module in props/."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

TECH = ('symbolic execution of the current source on Z3 terms, bounded; each assertion decided by '
        'Z3 for all values on a path; counterexamples replayed on the real package')
NOTE = ('Decides the property for all element identities, equalities, hash values, hash orders, '
        'indices and (for lists) trie windows, up to the stated sizes and history lengths: ')
TRUST = ('. Trusted: the symbolic engine (every explored path is also run concretely on the real '
         'package and the real phamt), the phamt stand-in (compared with phamt in setup), Z3.')
NOT = {}

props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks = []
na = []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(ROOT, 'props', i.lower() + '.py')) and i not in NOT:
        m = importlib.import_module('props.' + i.lower())
        checks.append({
            'property': i,
            'quick_cmd': 'python3-vt check.py %s quick' % i,
            'thorough_cmd': 'python3-vt check.py %s thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': getattr(m, 'TECHNIQUE', TECH),
            'level': 'model_checking',
            'level_note': getattr(m, 'NOTE', NOTE) + m.BOUNDS + TRUST,
        })
    else:
        na.append({'property': i, 'reason': NOT.get(i, 'not built yet')})
out = {'version': 1, 'setup_cmd': 'python3-vt selftest.py', 'checks': checks,
       'not_applicable': na,
       'notes': 'No hooks in /repo: the checks read the library from /repo at run time. '
                'python3-vt check.py <id> [quick|thorough] [substring of a configuration].'}
json.dump(out, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
import jsonschema
jsonschema.validate(out, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks), 'checks', len(na), 'not claimed')
