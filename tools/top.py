#!/usr/bin/env python3
"""Slowest configurations, unreproduced counterexamples and errors in an evidence file."""
import json, sys
d = json.load(open('/verif/evidence/%s.json' % sys.argv[1]))['coverage']
n = int(sys.argv[2]) if len(sys.argv) > 2 else 12
for c in sorted(d['configurations'], key=lambda c: -c['wall_s'])[:n]:
    print(c['wall_s'], c['paths'], '' if c['complete'] else 'INCOMPLETE', c['job'])
for u in d.get('unreproduced', [])[:6]:
    print('UNREPRO', u['job'], u['kind'], u['label'], u['inputs'], u['info'][-900:])
for e in d.get('errors', [])[:3]: print('ERR', e['job'], e['error'])
print('notes', d['notes'], 'vacuous', d['vacuous_configurations'][:5])
